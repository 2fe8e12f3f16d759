"""Simulator self-test: file, clock and bucket APIs that beep does not use today but a refactoring might, all inside the simulated disk."""
import sys
sys.path.insert(0, '/verif')
from sim import runner
runner.prepare()
ctx = runner.Ctx(sys.argv[1] if len(sys.argv) > 1 else '/tmp/selftest')
OUT = {}


def t(name):
    def d(f):
        OUT[name] = f
        return f
    return d


@t('pathlib')
def _():
    from pathlib import Path
    p = Path('/sim/w/a.txt')
    p.write_text('hé\n', encoding='utf-8'); assert p.read_text('utf-8') == 'hé\n'; assert p.exists() and p.is_file()
    (p.parent / 'd' / 'e').mkdir(parents=True, exist_ok=True); p.rename('/sim/w/d/b.txt')
    assert sorted(x.name for x in Path('/sim/w/d').iterdir()) == ['b.txt', 'e']
    assert [str(x) for x in Path('/sim/w').rglob('*.txt')] == ['/sim/w/d/b.txt'], list(Path('/sim/w').rglob('*.txt'))
    assert Path('d/b.txt').resolve() == Path('/sim/w/d/b.txt'), Path('d/b.txt').resolve()
    Path('/sim/w/d/b.txt').unlink(); assert Path.cwd() == Path('/sim/w')
    assert Path('x').absolute() == Path('/sim/w/x')


@t('digest')
def _():
    import hashlib
    open('/sim/w/x', 'wb').write(b'abc' * 100000)
    with open('/sim/w/x', 'rb') as f:
        a = hashlib.file_digest(f, 'md5').hexdigest()
    with open('/sim/w/x', 'rb', buffering=0) as f:
        b = hashlib.md5(f.read()).hexdigest()
    with open('/sim/w/x', 'rb') as f:
        h = hashlib.md5()
        for c in iter(lambda: f.read(4096), b''):
            h.update(c)
    ba = bytearray(1000); n = 0
    with open('/sim/w/x', 'rb') as f:
        while k := f.readinto(ba):
            n += k
    assert n == 300000 and a == b == h.hexdigest()


@t('mmap')
def _():
    import mmap
    open('/sim/w/x', 'wb').write(b'abc' * 1000)
    with open('/sim/w/x', 'rb') as f, mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ) as m:
        assert m[:3] == b'abc' and len(m) == 3000


@t('atomic')
def _():
    import json, os, tempfile
    fd, p = tempfile.mkstemp(dir='/sim/w', suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump({'a': 1}, f); f.flush(); os.fsync(f.fileno())
    os.replace(p, '/sim/w/o.json')
    assert json.load(open('/sim/w/o.json')) == {'a': 1}
    with tempfile.NamedTemporaryFile('w', dir='/sim/w', delete=False) as f:
        f.write('x')
    os.rename(f.name, '/sim/w/p'); assert open('/sim/w/p').read() == 'x'
    with tempfile.TemporaryDirectory() as d:
        open(os.path.join(d, 'q'), 'w').write('1')
    assert not os.path.exists(d)
    with tempfile.TemporaryFile() as f:
        f.write(b'1'); f.seek(0); assert f.read() == b'1'
    with tempfile.SpooledTemporaryFile(max_size=10) as f:
        f.write(b'1' * 100); f.seek(0); assert len(f.read()) == 100


@t('shutil')
def _():
    import os, shutil, glob
    os.makedirs('/sim/w/s/t'); open('/sim/w/s/t/f', 'w').write('1\n2\n')
    shutil.copy('/sim/w/s/t/f', '/sim/w/s/g'); shutil.copyfile('/sim/w/s/g', '/sim/w/h'); shutil.copy2('/sim/w/h', '/sim/w/i')
    shutil.move('/sim/w/i', '/sim/w/j'); shutil.copytree('/sim/w/s', '/sim/w/s2')
    assert sorted(glob.glob('/sim/w/**/*', recursive=True)) and sorted(os.walk('/sim/w/s2'))[0][1] == ['t']
    assert [e.name for e in os.scandir('/sim/w/s')] and os.stat('/sim/w/h').st_size == 4 and os.path.getmtime('/sim/w/h') > 1
    shutil.rmtree('/sim/w/s2'); assert not os.path.exists('/sim/w/s2'); assert os.path.samefile('/sim/w/h', 'h')
    assert os.path.realpath('h') == '/sim/w/h' and shutil.disk_usage('/sim/w')


@t('rawfd')
def _():
    import os
    fd = os.open('/sim/w/f', os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644); os.write(fd, b'ab'); os.fsync(fd); os.close(fd)
    fd = os.open('/sim/w/f', os.O_RDONLY); assert os.read(fd, 10) == b'ab' and os.fstat(fd).st_size == 2; os.close(fd)
    with open('/sim/w/f', 'a+') as f:
        f.write('c'); f.seek(0); assert f.read() == 'abc'; f.truncate(1)
    with open('/sim/w/f', 'r+') as f:
        assert f.readline() == 'a' and f.tell() == 1
    with open('/sim/w/g', 'x') as f:
        f.writelines(['a\n', 'b\n'])
    with open('/sim/w/g', newline='') as f:
        assert list(f) == ['a\n', 'b\n']
    import io, codecs, linecache, fileinput
    with io.open('/sim/w/g', 'rt') as f:
        assert f.readlines() == ['a\n', 'b\n']
    with codecs.open('/sim/w/g', encoding='utf-8') as f:
        assert f.read() == 'a\nb\n'
    with open('/sim/w/g', 'rb') as b, io.TextIOWrapper(b, 'utf-8') as f:
        assert f.read() == 'a\nb\n'


@t('pandas')
def _():
    import pandas as pd, numpy as np, gzip, json, csv
    d = pd.DataFrame({'a': [1, 2], 'b': ['x', 'y']})
    d.to_csv('/sim/w/a.csv', index=False); assert pd.read_csv('/sim/w/a.csv').equals(d)
    with open('/sim/w/a.csv') as f:
        assert pd.read_csv(f).equals(d)
    assert pd.read_csv('/sim/w/a.csv', engine='python').equals(d) and pd.read_csv('/sim/w/a.csv', memory_map=True).equals(d)
    d.to_json('/sim/w/a.json.gz', compression='gzip'); pd.read_json('/sim/w/a.json.gz')
    d.to_pickle('/sim/w/a.pkl'); assert pd.read_pickle('/sim/w/a.pkl').equals(d)
    np.save('/sim/w/a.npy', np.arange(3)); assert list(np.load('/sim/w/a.npy')) == [0, 1, 2]
    np.savetxt('/sim/w/a.txt', np.arange(3)); assert list(np.loadtxt('/sim/w/a.txt')) == [0, 1, 2]
    np.arange(3).tofile('/sim/w/a.bin'); assert list(np.fromfile('/sim/w/a.bin', dtype=int)) == [0, 1, 2]
    with gzip.open('/sim/w/z.gz', 'wt') as f:
        json.dump([1], f)
    with gzip.open('/sim/w/z.gz') as f:
        assert json.load(f) == [1]
    with open('/sim/w/c.csv', 'w', newline='') as f:
        csv.writer(f).writerow([1, 2])
    from monty.serialization import dumpfn, loadfn
    dumpfn({'a': 1}, '/sim/w/m.json.gz'); assert loadfn('/sim/w/m.json.gz') == {'a': 1}
    dumpfn({'a': 1}, '/sim/w/m.yaml'); assert loadfn('/sim/w/m.yaml') == {'a': 1}
    import zipfile, sqlite3
    with zipfile.ZipFile('/sim/w/z.zip', 'w') as z:
        z.write('/sim/w/a.csv', 'a.csv')
    with zipfile.ZipFile('/sim/w/z.zip') as z:
        assert z.read('a.csv')


@t('chdir')
def _():
    import contextlib, os
    os.makedirs('/sim/w/d')
    with contextlib.chdir('/sim/w/d'):
        assert os.getcwd() == '/sim/w/d'; open('r', 'w').write('1')
    assert os.listdir('/sim/w/d') == ['r'] and os.path.abspath('d/r') == '/sim/w/d/r' and os.path.relpath('/sim/w/d/r') == 'd/r'
    assert os.path.expanduser('~')


@t('clock')
def _():
    import datetime, time
    a = datetime.datetime.now(datetime.timezone.utc); b = datetime.datetime.utcnow(); c = datetime.datetime.fromtimestamp(time.time())
    assert abs((a.replace(tzinfo=None) - b).total_seconds()) < 5 and a.year == 2020, a
    time.sleep(1000); assert datetime.datetime.now(datetime.UTC) - a > datetime.timedelta(seconds=999)
    assert time.time_ns() // 10**9 >= 1600000000 and time.perf_counter() >= 0 and time.process_time() >= 0
    import pandas as pd
    assert abs((pd.Timestamp.utcnow().tz_localize(None) - pd.Timestamp(b)).total_seconds()) < 2000, pd.Timestamp.utcnow()
    assert pd.Timestamp.now().year == 2020, pd.Timestamp.now()
    assert pd.to_datetime('now').year == 2020
    assert datetime.date.today().year == 2020 and time.gmtime().tm_year == 2020 and c.year == 2020
    time.strftime('%Y') == '2020'


@t('random')
def _():
    import random, numpy as np, uuid, secrets
    return [random.random(), np.random.rand(), str(uuid.uuid4()), secrets.token_hex(4), np.random.default_rng().random(), random.SystemRandom().random(), random.Random().random(), np.random.RandomState().rand(), str(uuid.uuid1())]


@t('threads')
def _():
    from concurrent.futures import ThreadPoolExecutor
    import threading, queue
    with ThreadPoolExecutor(2) as e:
        assert list(e.map(lambda x: x + 1, range(5))) == [1, 2, 3, 4, 5]


@t('s3')
def _():
    import boto3, io
    c = boto3.client('s3'); c.download_file('b', 'k/x', '/sim/w/x'); assert open('/sim/w/x').read() == 'hello'
    assert c.get_object(Bucket='b', Key='k/x')['Body'].read() == b'hello'
    with open('/sim/w/y', 'wb') as f:
        c.download_fileobj('b', 'k/x', f)
    with open('/sim/w/y', 'wb') as f:
        for ch in c.get_object(Bucket='b', Key='k/x')['Body'].iter_chunks(2):
            f.write(ch)
    assert open('/sim/w/y').read() == 'hello'
    r = boto3.resource('s3'); r.Bucket('b').download_file('k/x', '/sim/w/z'); r.Object('b', 'k/x').download_file('/sim/w/z2')
    r.meta.client.download_file('b', 'k/x', '/sim/w/z3'); r.Bucket('b').Object('k/x').download_file('/sim/w/z4')
    assert [o.key for o in r.Bucket('b').objects.all()] == ['k/x'] and [o.key for o in r.Bucket('b').objects.filter(Prefix='k')] == ['k/x']
    assert c.list_objects_v2(Bucket='b')['Contents'][0]['Key'] == 'k/x' and c.list_objects(Bucket='b', Prefix='k')['Contents']
    assert [p['Contents'] for p in c.get_paginator('list_objects_v2').paginate(Bucket='b')] and [p for p in c.get_paginator('list_objects').paginate(Bucket='b')]
    assert c.head_object(Bucket='b', Key='k/x')['ContentLength'] == 5
    s = boto3.Session(); s.client('s3').upload_file('/sim/w/x', 'b', 'k/y'); boto3.session.Session().resource('s3').Bucket('b').upload_file('/sim/w/x', 'k/z')
    c.put_object(Bucket='b', Key='k/w', Body=b'1'); c.upload_fileobj(io.BytesIO(b'12'), 'b', 'k/v'); c.copy_object(Bucket='b', Key='k/u', CopySource={'Bucket': 'b', 'Key': 'k/x'})
    c.copy({'Bucket': 'b', 'Key': 'k/x'}, 'b', 'k/t'); r.Object('b', 'k/s').put(Body=b'1'); assert r.Object('b', 'k/x').get()['Body'].read() == b'hello'


@t('xls')
def _():
    import h5py, numpy as np
    with h5py.File('/sim/w/a.h5', 'w') as f:
        f['x'] = np.arange(3)
    with h5py.File('/sim/w/a.h5', 'r') as f:
        assert list(f['x']) == [0, 1, 2]


@t('xml')
def _():
    import xml.etree.ElementTree as ET
    open('/sim/w/a.xml', 'w').write('<a><b>1</b></a>'); t = ET.parse('/sim/w/a.xml'); t.write('/sim/w/b.xml'); assert '<b>1</b>' in open('/sim/w/b.xml').read()
    import configparser
    c = configparser.ConfigParser(); c['x'] = {'a': '1'}
    with open('/sim/w/c.ini', 'w') as f:
        c.write(f)
    c.read('/sim/w/c.ini')


@t('logging')
def _():
    import logging, logging.handlers
    for h in (logging.FileHandler('/sim/w/l', 'a', delay=True), logging.handlers.WatchedFileHandler('/sim/w/l'), logging.handlers.RotatingFileHandler('/sim/w/l')):
        lg = logging.getLogger('zz'); lg.addHandler(h); lg.error('x'); lg.removeHandler(h); h.close()
    assert open('/sim/w/l').read().count('x') == 3


bad = 0
for k, f in OUT.items():
    res = []
    for rep in (0, 1):
        ctx.reset()
        ctx.write({'/sim/w/keep': b'1'})
        ctx.put_s3({('b', 'k/x'): b'hello'})
        r = ctx.run(f, (), s3=True)
        res.append((r['outcome'], r['value'], r['escapes'], (r['exc'] or {}).get('tb', '')[-700:], [tuple(x[:3]) for x in r['trace']]))
    ok = res[0][0] in ('ok', 'value', 'return', 'done') and not res[0][2] and res[0] == res[1]
    if not ok:
        bad += 1
    print(k, 'ok' if ok else 'BAD', '' if ok else (res[0][:4], res[0] == res[1]))
sys.exit(bad)
