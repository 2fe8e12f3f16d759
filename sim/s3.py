"""A bucket service stand-in behind boto3.client / boto3.resource (STUB; everything above it is real)."""
import datetime
import hashlib
import io
import os
import urllib.parse

from . import core

_r_open, _r_listdir = core._real_open, core._real["listdir"]


class Store:
    """Durable state, shared by simulated processes: <dir>/<bucket>/<quoted key>"""

    def __init__(self, d):
        self.d = d

    def _b(self, bucket):
        return os.path.join(self.d, urllib.parse.quote(bucket, safe=""))

    def put(self, bucket, key, data):
        b = self._b(bucket)
        core_mkdirs(b)
        with _r_open(os.path.join(b, urllib.parse.quote(key, safe="")), "wb") as f:
            f.write(data)

    def get(self, bucket, key):
        try:
            with _r_open(os.path.join(self._b(bucket), urllib.parse.quote(key, safe="")), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def delete(self, bucket, key):
        try:
            core._real["unlink"](os.path.join(self._b(bucket), urllib.parse.quote(key, safe="")))
        except FileNotFoundError:
            pass

    def keys(self, bucket):
        try:
            return sorted(urllib.parse.unquote(k) for k in _r_listdir(self._b(bucket)))
        except FileNotFoundError:
            return None

    def buckets(self):
        try:
            return sorted(urllib.parse.unquote(b) for b in _r_listdir(self.d))
        except FileNotFoundError:
            return []

    def dump(self):
        return {b: {k: self.get(b, k) for k in self.keys(b)} for b in self.buckets()}


def core_mkdirs(p):
    try:
        core._real["mkdir"](p)
    except FileExistsError:
        pass
    except FileNotFoundError:
        core_mkdirs(os.path.dirname(p))
        core._real["mkdir"](p)


def client_error(code, opname, status=None):
    from botocore.exceptions import ClientError
    status = status or {"404": 404, "NoSuchKey": 404, "NoSuchBucket": 404, "AccessDenied": 403,
                        "SlowDown": 503, "InternalError": 500}.get(code, 400)
    return ClientError({"Error": {"Code": code, "Message": "simulated %s" % code},
                        "ResponseMetadata": {"HTTPStatusCode": status}}, opname)


class FakeS3:
    def __init__(self, store, page=1000):
        self.store = store
        self.page = page
        self.ops = []

    def install(self, sim):
        import boto3
        self.sim = sim
        boto3.client = self.client
        boto3.resource = self.resource
        me = self

        class Session:
            def __init__(self, *a, **k):
                pass

            def client(self, *a, **k):
                return me.client(*a, **k)

            def resource(self, *a, **k):
                return me.resource(*a, **k)
        boto3.Session = Session
        try:
            boto3.session.Session = Session
        except AttributeError:
            pass

    def client(self, name="s3", *a, **k):
        if name != "s3":
            raise RuntimeError("simulated: only s3 is available")
        return Client(self)

    def resource(self, name="s3", *a, **k):
        return Resource(self)

    # one service request
    def req(self, what, bucket, key=""):
        self.ops.append((what, bucket, key))
        act = self.sim.op("s3." + what, "s3://%s/%s" % (bucket, key))
        if act is not None:
            do = act["do"]
            if do == "drop":
                from botocore.exceptions import EndpointConnectionError
                raise EndpointConnectionError(endpoint_url="https://s3.simulated")
            if do.startswith("s3:"):
                raise client_error(do[3:], what)
        if self.store.keys(bucket) is None:
            raise client_error("NoSuchBucket", what)
        return act


class Forbidden:
    def install(self, sim):
        import boto3

        def no(*a, **k):
            raise RuntimeError("simulated: no network in this scenario")
        boto3.client = no
        boto3.resource = no


def _meta(store, bucket, key):
    d = store.get(bucket, key)
    return {"Key": key, "Size": len(d), "ETag": '"%s"' % hashlib.md5(d).hexdigest(), "StorageClass": "STANDARD",
            "LastModified": datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)}


class Body(io.RawIOBase):
    def __init__(self, fs, bucket, key, data):
        self.fs, self.b, self.k, self.data, self.pos = fs, bucket, key, data, 0

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        act = self.fs.sim.op("s3.body", "s3://%s/%s" % (self.b, self.k), n)
        if act is not None and act["do"] in ("drop", "cut") or (act and act["do"].startswith("s3:")):
            from botocore.exceptions import ReadTimeoutError
            raise ReadTimeoutError(endpoint_url="https://s3.simulated")
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def iter_chunks(self, chunk_size=1024):
        while True:
            d = self.read(chunk_size)
            if not d:
                return
            yield d

    def iter_lines(self, chunk_size=1024, keepends=False):
        for ln in self.read().splitlines(keepends):
            yield ln


class Client:
    class exceptions:
        from botocore.exceptions import ClientError
        NoSuchKey = ClientError
        NoSuchBucket = ClientError

    def __init__(self, fs):
        self.fs = fs

    # listing
    def list_objects_v2(self, Bucket, Prefix="", Delimiter=None, ContinuationToken=None, StartAfter=None,
                        MaxKeys=1000, **k):
        self.fs.req("list", Bucket)
        keys = [x for x in self.fs.store.keys(Bucket) if x.startswith(Prefix or "")]
        items, seen = [], set()
        for x in keys:
            if Delimiter:
                rest = x[len(Prefix or ""):]
                if Delimiter in rest:
                    p = (Prefix or "") + rest.split(Delimiter)[0] + Delimiter
                    if p not in seen:
                        seen.add(p)
                        items.append(("p", p))
                    continue
            items.append(("k", x))
        after = ContinuationToken or StartAfter
        if after:
            items = [it for it in items if it[1] > after]
        n = min(MaxKeys, self.fs.page)
        page = items[:n]
        out = {"Name": Bucket, "Prefix": Prefix, "KeyCount": len(page), "MaxKeys": n,
               "IsTruncated": len(items) > len(page), "ResponseMetadata": {"HTTPStatusCode": 200}}
        ks = [_meta(self.fs.store, Bucket, x) for t, x in page if t == "k"]
        ps = [{"Prefix": x} for t, x in page if t == "p"]
        if ks:
            out["Contents"] = ks
        if ps:
            out["CommonPrefixes"] = ps
        if out["IsTruncated"]:
            out["NextContinuationToken"] = page[-1][1]
        return out

    def list_objects(self, Bucket, Prefix="", Delimiter=None, Marker=None, MaxKeys=1000, **k):
        r = self.list_objects_v2(Bucket, Prefix, Delimiter, Marker, None, MaxKeys)
        if "NextContinuationToken" in r:
            r["NextMarker"] = r.pop("NextContinuationToken")
        return r

    def get_paginator(self, name):
        c = self

        class P:
            def paginate(self, **k):
                k.pop("PaginationConfig", None)
                tok = None
                while True:
                    if name == "list_objects":
                        r = c.list_objects(Marker=tok, **k)
                        tok = r.get("NextMarker")
                    else:
                        r = c.list_objects_v2(ContinuationToken=tok, **k)
                        tok = r.get("NextContinuationToken")
                    yield r
                    if not r["IsTruncated"]:
                        return
        return P()

    # reading
    def head_object(self, Bucket, Key, **k):
        self.fs.req("head", Bucket, Key)
        if self.fs.store.get(Bucket, Key) is None:
            raise client_error("404", "HeadObject")
        m = _meta(self.fs.store, Bucket, Key)
        return {"ContentLength": m["Size"], "ETag": m["ETag"], "LastModified": m["LastModified"],
                "ResponseMetadata": {"HTTPStatusCode": 200}}

    def get_object(self, Bucket, Key, **k):
        self.fs.req("get", Bucket, Key)
        d = self.fs.store.get(Bucket, Key)
        if d is None:
            raise client_error("NoSuchKey", "GetObject")
        m = _meta(self.fs.store, Bucket, Key)
        return {"Body": Body(self.fs, Bucket, Key, d), "ContentLength": m["Size"], "ETag": m["ETag"],
                "LastModified": m["LastModified"], "ResponseMetadata": {"HTTPStatusCode": 200}}

    def download_fileobj(self, Bucket, Key, Fileobj, **k):
        body = self.get_object(Bucket, Key)["Body"]
        while True:
            d = body.read(256)
            if not d:
                break
            Fileobj.write(d)

    def download_file(self, Bucket, Key, Filename, **k):
        # like s3transfer: head, temporary file beside the destination, then rename
        self.head_object(Bucket, Key)
        Filename = os.fspath(Filename)
        self.fs.sim.tmpc = getattr(self.fs.sim, "tmpc", 0) + 1
        tmp = "%s.%08x" % (Filename, 0xA0000000 + (int(self.fs.sim.knobs.get("pidsalt", 0)) << 12) + self.fs.sim.tmpc)
        try:
            with open(tmp, "wb") as f:
                self.download_fileobj(Bucket, Key, f)
            os.rename(tmp, Filename)
        except BaseException:
            try:
                os.remove(tmp)
            except OSError:
                pass
            raise

    # writing
    def _put(self, Bucket, Key, data, what="put"):
        self.fs.req(what, Bucket, Key)
        self.fs.store.put(Bucket, Key, data)
        return {"ETag": '"%s"' % hashlib.md5(data).hexdigest(), "ResponseMetadata": {"HTTPStatusCode": 200}}

    def put_object(self, Bucket, Key, Body=b"", **k):
        if hasattr(Body, "read"):
            Body = Body.read()
        if isinstance(Body, str):
            Body = Body.encode()
        return self._put(Bucket, Key, bytes(Body))

    def upload_fileobj(self, Fileobj, Bucket, Key, **k):
        d = Fileobj.read()
        if isinstance(d, str):
            raise TypeError("upload_fileobj needs a binary file")
        self._up(Bucket, Key, d)

    def upload_file(self, Filename, Bucket, Key, **k):
        with open(Filename, "rb") as f:
            d = f.read()
        self._up(Bucket, Key, d, Filename)   # upload_file wraps ClientError, upload_fileobj does not (as in boto3)

    def _up(self, Bucket, Key, d, wrap=None):
        from botocore.exceptions import ClientError
        from boto3.exceptions import S3UploadFailedError
        try:
            self._put(Bucket, Key, d)
        except ClientError as e:
            if not wrap:
                raise
            raise S3UploadFailedError("Failed to upload %s to %s: %s" % (wrap, "/".join([Bucket, Key]), e))

    def copy_object(self, Bucket, Key, CopySource, **k):
        if isinstance(CopySource, str):
            b, _, kk = CopySource.lstrip("/").partition("/")
        else:
            b, kk = CopySource["Bucket"], CopySource["Key"]
        d = self.fs.store.get(b, kk)
        if d is None:
            raise client_error("NoSuchKey", "CopyObject")
        return self._put(Bucket, Key, d)

    def copy(self, CopySource, Bucket, Key, **k):
        self.copy_object(Bucket, Key, CopySource)

    def delete_object(self, Bucket, Key, **k):
        self.fs.req("delete", Bucket, Key)
        self.fs.store.delete(Bucket, Key)
        return {"ResponseMetadata": {"HTTPStatusCode": 204}}

    def delete_objects(self, Bucket, Delete, **k):
        for o in Delete["Objects"]:
            self.delete_object(Bucket, o["Key"])
        return {}

    def close(self):
        pass


class ObjectSummary:
    def __init__(self, fs, bucket, key):
        self.fs, self.bucket_name, self.key = fs, bucket, key

    def __repr__(self):
        return "s3.ObjectSummary(bucket_name=%r, key=%r)" % (self.bucket_name, self.key)

    @property
    def size(self):
        return len(self.fs.store.get(self.bucket_name, self.key))

    content_length = size

    @property
    def e_tag(self):
        return _meta(self.fs.store, self.bucket_name, self.key)["ETag"]

    @property
    def last_modified(self):
        return datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)

    def get(self, **k):
        return Client(self.fs).get_object(self.bucket_name, self.key)

    def put(self, Body=b"", **k):
        return Client(self.fs).put_object(self.bucket_name, self.key, Body)

    def delete(self, **k):
        return Client(self.fs).delete_object(self.bucket_name, self.key)

    def load(self):
        Client(self.fs).head_object(self.bucket_name, self.key)

    def download_file(self, Filename, **k):
        Client(self.fs).download_file(self.bucket_name, self.key, Filename)

    def download_fileobj(self, Fileobj, **k):
        Client(self.fs).download_fileobj(self.bucket_name, self.key, Fileobj)

    def upload_file(self, Filename, **k):
        Client(self.fs).upload_file(Filename, self.bucket_name, self.key)

    def Object(self):
        return self


class _Coll:
    def __init__(self, fs, bucket, prefix="", delim=None, limit=None):
        self.fs, self.b, self.p, self.d, self.l = fs, bucket, prefix, delim, limit

    def all(self):
        return self

    def filter(self, Prefix="", Delimiter=None, **k):
        return _Coll(self.fs, self.b, Prefix, Delimiter, self.l)

    def limit(self, n):
        return _Coll(self.fs, self.b, self.p, self.d, n)

    def page_size(self, n):
        return self

    def pages(self):
        for r in Client(self.fs).get_paginator("list_objects_v2").paginate(
                Bucket=self.b, Prefix=self.p, Delimiter=self.d):
            yield [ObjectSummary(self.fs, self.b, c["Key"]) for c in r.get("Contents", [])]

    def __iter__(self):
        n = 0
        for pg in self.pages():
            for o in pg:
                if self.l is not None and n >= self.l:
                    return
                n += 1
                yield o


class Bucket:
    def __init__(self, fs, name):
        self.fs, self.name = fs, name
        self.objects = _Coll(fs, name)

    def Object(self, key):
        return ObjectSummary(self.fs, self.name, key)

    def download_file(self, Key, Filename, **k):
        Client(self.fs).download_file(self.name, Key, Filename)

    def download_fileobj(self, Key, Fileobj, **k):
        Client(self.fs).download_fileobj(self.name, Key, Fileobj)

    def upload_file(self, Filename, Key, **k):
        Client(self.fs).upload_file(Filename, self.name, Key)

    def put_object(self, Key, Body=b"", **k):
        return Client(self.fs).put_object(self.name, Key, Body)


class Resource:
    def __init__(self, fs):
        self.fs = fs
        self.meta = type("M", (), {"client": Client(fs)})()

    def Bucket(self, name):
        return Bucket(self.fs, name)

    def Object(self, bucket, key):
        return ObjectSummary(self.fs, bucket, key)

    ObjectSummary = Object
