"""The disk seam: every HDF5 file the code under test opens lives on a simulated disk.

h5py.File is replaced by a subclass that, while the seam is armed, opens named files on the
simulated disk through HDF5's file-object driver.  The real h5py and HDF5 run; each of their
reads, writes, truncations and flushes is a call the simulator decides about:

* a full disk or a failing device: the k-th write from now on raises OSError, for a while or until healed;
* a crash of the process: only what HDF5 had handed to the disk is there; the contents are
  copied at the chosen point and read back by an independent reader;
* failing to open a file.
"""
import io
import h5py

_Real = h5py.File
_disk = None
_graveyard = []


class SimFile:
    def __init__(self, disk, name):
        self.disk, self.name = disk, name
        self.b = bytearray()
        self.pos = 0

    def seek(self, o, w=0):
        self.pos = o if w == 0 else (self.pos + o if w == 1 else len(self.b) + o)
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, buf):
        m = memoryview(buf)
        d = self.b[self.pos:self.pos + len(m)]
        m[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def read(self, n=-1):
        d = bytes(self.b[self.pos:] if n < 0 else self.b[self.pos:self.pos + n])
        self.pos += len(d)
        return d

    def write(self, buf):
        self.disk.on_write(self)
        n = len(buf)
        if len(self.b) < self.pos:
            self.b.extend(bytes(self.pos - len(self.b)))
        self.b[self.pos:self.pos + n] = buf
        self.pos += n
        return n

    def truncate(self, n=None):
        n = self.pos if n is None else n
        if n < len(self.b):
            del self.b[n:]
        else:
            self.b.extend(bytes(n - len(self.b)))
        return n

    def flush(self):
        self.disk.flushes += 1


class Disk:
    """with Disk(run) as d: ...   d.files: name -> SimFile"""
    def __init__(self, run):
        self.run = run
        self.files = {}
        self.writes = 0
        self.flushes = 0
        self.flushing = 0
        self.torn = False           # a flush failed half-way and has not been repeated
        self.plan = None            # (kind, first write that fails, how many)
        self.copy_at = None         # take a copy at this write outside a flush
        self.copies = []
        self.open_fails = None
        self.calls = None
        self.handles = []
        self.fired = 0

    def __enter__(self):
        global _disk
        _disk = self
        return self

    def __exit__(self, *a):
        global _disk
        _disk = None
        self.plan = None
        self.copy_at = None
        for h in self.handles:
            settle(h)
        self.handles = []
        return False

    def on_write(self, f):
        self.writes += 1
        if self.copy_at is not None and not self.flushing and not self.torn and self.writes >= self.copy_at:
            self.copies.append((f.name, bytes(f.b)))
            self.copy_at = None
        if self.plan is not None:
            kind, first, n = self.plan
            if first <= self.writes < first + n:
                self.fired += 1
                self.torn = self.torn or self.flushing > 0
                self.run.fault(kind)
                raise OSError(28 if kind == 'disk_full' else 5, 'simulated: ' + kind)

    def on_call(self):
        if self.calls is not None:
            self.calls -= 1
            if self.calls < 0:
                self.calls = None
                self.fired += 1
                self.run.fault('hdf5_call_fails')
                raise OSError(5, 'simulated: HDF5 call fails')

    def arm(self, kind, after, n):
        """The writes number after .. after+n-1 from now on fail."""
        if kind == 'hdf5_call_fails':
            self.calls = after
            self.fired = 0
            return
        self.plan = (kind, self.writes + after, n)
        self.fired = 0

    def heal(self):
        self.plan = None
        self.calls = None

    def open(self, name, mode):
        if self.open_fails is not None:
            self.open_fails -= 1
            if self.open_fails < 0:
                self.open_fails = None
                self.run.fault('open_fails')
                raise OSError(13, 'simulated: cannot open', name)
        if mode in ('w', 'x', 'w-'):
            if mode != 'w' and name in self.files:
                raise FileExistsError(17, 'simulated: file exists', name)
            self.files[name] = SimFile(self, name)
        elif mode in ('a',):
            self.files.setdefault(name, SimFile(self, name))
        elif name not in self.files:
            raise FileNotFoundError(2, 'simulated: no such file', name)
        f = self.files[name]
        f.pos = 0
        return f

    def contents(self, name):
        return bytes(self.files[name].b)


class File(_Real):
    def __init__(self, name, mode='r', *a, **kw):
        d = _disk
        if d is not None and isinstance(name, (str, bytes)) and not kw.get('driver'):
            f = d.open(name, mode)
            if mode == 'a' and not len(f.b):
                mode = 'w'
            _Real.__init__(self, f, mode, *a, **kw)
            d.handles.append(self)
        else:
            _Real.__init__(self, name, mode, *a, **kw)

    def flush(self):
        if _disk is None:
            return _Real.flush(self)
        _disk.flushing += 1
        try:
            r = _Real.flush(self)
            _disk.torn = False
            return r
        finally:
            _disk.flushing -= 1

    def close(self):
        if _disk is None:
            return _Real.close(self)
        # HDF5 1.10 does not survive a close that fails (the next close in the process crashes), so
        # the disk is healthy by then
        _disk.heal()
        _disk.flushing += 1
        try:
            return _Real.close(self)
        except BaseException:
            # HDF5 cannot recover from this; the handle must not be touched again, nor collected
            _graveyard.append(self)
            raise
        finally:
            _disk.flushing -= 1


def settle(h):
    """Close a handle on a healthy disk.  HDF5 must not be asked to close a file with a failed flush pending."""
    if any(h is g for g in _graveyard) or not h:
        return
    for _ in range(6):
        try:
            h.flush()
        except BaseException:
            continue
        h.close()
        return


def _hook(name):
    real = getattr(h5py.Group, name)

    def f(self, *a, **kw):
        if _disk is not None:
            _disk.on_call()
        return real(self, *a, **kw)
    f.__name__ = name
    setattr(h5py.Group, name, f)


def install():
    h5py.File = File
    _hook('create_group')
    _hook('create_dataset')


def read_file(b):
    """Independent reader: {'attrs': {...}, 'groups': {name: {'attrs':..., 'data': {name: array}}}}"""
    out = {'attrs': {}, 'groups': {}}
    h = _Real(io.BytesIO(b), 'r')
    try:
        for k, v in h.attrs.items():
            out['attrs'][k] = v.item() if hasattr(v, 'item') else v
        for g in h:
            out['groups'][g] = {'attrs': {k: v.item() if hasattr(v, 'item') else v for k, v in h[g].attrs.items()},
                                'data': {n: h[g][n][()] for n in h[g]}}
    finally:
        h.close()
    return out
