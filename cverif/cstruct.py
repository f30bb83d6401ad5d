"""ctypes mirror of the record layouts found in the AST of the current tree."""
import ctypes as ct

_INT = {'char': ct.c_char, 'signed char': ct.c_byte, 'unsigned char': ct.c_ubyte, 'short': ct.c_short,
        'unsigned short': ct.c_ushort, 'int': ct.c_int, 'unsigned int': ct.c_uint, 'unsigned': ct.c_uint,
        'long': ct.c_long, 'unsigned long': ct.c_ulong, 'long long': ct.c_longlong,
        'unsigned long long': ct.c_ulonglong, '_Bool': ct.c_bool}


class CTypes:
    def __init__(self, prog):
        self.prog = prog
        self.structs = {}

    def of(self, t):
        if t.kind == 'int':
            if t.name == 'char':
                return ct.c_byte
            return _INT[t.name]
        if t.kind == 'real':
            return {'double': ct.c_double, 'float': ct.c_float, 'long double': ct.c_longdouble}[t.name]
        if t.kind == 'ptr' or t.kind == 'func':
            return ct.c_void_p
        if t.kind == 'arr':
            return self.of(t.to) * (t.n or 0)
        if t.kind == 'struct':
            return self.struct(t.name)
        raise TypeError('no ctypes for %r' % t)

    def struct(self, name):
        if name not in self.structs:
            cls = type(name, (ct.Structure,), {})
            self.structs[name] = cls
            cls._fields_ = [(f, self.of(t)) for f, t in self.prog.records[name]]
        return self.structs[name]
