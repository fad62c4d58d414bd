"""The C API through ctypes; the layout of VSAPI is taken from the tree's own VapourSynth4.h."""
import ctypes as C, os, re, sys
from ctypes import c_int, c_int64, c_uint32, c_uint64, c_double, c_float, c_char_p, c_void_p, c_ssize_t, POINTER, CFUNCTYPE, byref

REPO = os.environ.get('VF_REPO', '/repo')


class VideoFormat(C.Structure):
    _fields_ = [(n, c_int) for n in ('colorFamily', 'sampleType', 'bitsPerSample', 'bytesPerSample', 'subSamplingW', 'subSamplingH', 'numPlanes')]

    def t(self):
        return tuple(getattr(self, n) for n, _ in self._fields_)


class AudioFormat(C.Structure):
    _fields_ = [(n, c_int) for n in ('sampleType', 'bitsPerSample', 'bytesPerSample', 'numChannels')] + [('channelLayout', c_uint64)]

    def t(self):
        return tuple(getattr(self, n) for n, _ in self._fields_)


class VideoInfo(C.Structure):
    _fields_ = [('format', VideoFormat), ('fpsNum', c_int64), ('fpsDen', c_int64), ('width', c_int), ('height', c_int), ('numFrames', c_int)]


class AudioInfo(C.Structure):
    _fields_ = [('format', AudioFormat), ('sampleRate', c_int), ('numSamples', c_int64), ('numFrames', c_int)]


class Dependency(C.Structure):
    _fields_ = [('source', c_void_p), ('requestPattern', c_int)]


class CoreInfo2(C.Structure):
    _fields_ = [('versionString', c_char_p), ('coreVersion', c_int), ('apiVersion', c_int), ('creationFlags', c_int), ('numThreads', c_int), ('maxFramebufferSize', c_int64), ('usedFramebufferSize', c_int64)]


PUBLIC = CFUNCTYPE(None, c_void_p, c_void_p, c_void_p, c_void_p, c_void_p)
GETFRAME = CFUNCTYPE(c_void_p, c_int, c_int, c_void_p, c_void_p, c_void_p, c_void_p, c_void_p)
FREEFILTER = CFUNCTYPE(None, c_void_p, c_void_p, c_void_p)
FREEDATA = CFUNCTYPE(None, c_void_p)
LOGHANDLER = CFUNCTYPE(None, c_int, c_void_p, c_void_p)
INITPLUGIN = CFUNCTYPE(None, c_void_p, c_void_p)
FRAMEDONE = CFUNCTYPE(None, c_void_p, c_void_p, c_int, c_void_p, c_void_p)
SCALARS = {'int': c_int, 'int64_t': c_int64, 'uint32_t': c_uint32, 'uint64_t': c_uint64, 'double': c_double, 'float': c_float, 'ptrdiff_t': c_ssize_t, 'void': None, 'char': C.c_char}


def ctype(t, ret):
    const = 'const' in t
    t = re.sub(r'\b(const|VS_CC)\b', '', t).strip()
    if '*' in t:
        if not ret and const and re.fullmatch(r'char\s*\*', t):
            return c_char_p
        return c_void_p
    return SCALARS.get(t, c_void_p)     # callback typedefs


def parse(struct, header='VapourSynth4.h'):
    src = open(REPO + '/include/' + header).read()
    src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
    body = re.search(r'struct ' + struct + r' \{(.*?)\n\}', src, re.S).group(1)
    out = []
    for m in re.finditer(r'^\s*([A-Za-z_][\w\s\*]*?)\(VS_CC \*(\w+)\)\((.*?)\)\s*(?:VS_NOEXCEPT)?;', body, re.M | re.S):
        ret, name, args = m.groups()
        at = []
        for a in ([] if args.strip() in ('', 'void') else args.split(',')):
            a = a.strip()
            mm = re.match(r'(.*?)(\w+)$', a, re.S)
            at.append(ctype(mm.group(1), False))
        out.append((name, CFUNCTYPE(ctype(ret, True), *at)))
    return out


class Table:
    def __init__(self, struct, addr, header='VapourSynth4.h'):
        fs = parse(struct, header)
        ptrs = C.cast(addr, POINTER(c_void_p * len(fs))).contents
        for (name, ty), p in zip(fs, ptrs):
            setattr(self, name, ty(p))
        self._addr = addr


_api = None
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = C.CDLL(os.path.join(os.environ['VF_OUT'], 'site', 'vapoursynth', 'libvapoursynth.so.4'), mode=C.RTLD_GLOBAL)
        _lib.getVapourSynthAPI.restype = c_void_p
        _lib.getVapourSynthAPI.argtypes = [c_int]
    return _lib


def api():
    global _api
    if _api is None:
        _api = Table('VSAPI', lib().getVapourSynthAPI((4 << 16) | 2))
    return _api


def cstr(p):
    return None if not p else C.string_at(p)


_api3 = None


def api3():
    """The API 3 compatibility table."""
    global _api3
    if _api3 is None:
        _api3 = Table('VSAPI', lib().getVapourSynthAPI((3 << 16) | 6), 'VapourSynth.h')
    return _api3
