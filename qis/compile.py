# Compiles programs with the repository's compiler: requests `<opt> <bytes>\n<envelope>`, answers `ok|error <bytes>\n<data>`.
import sys, importlib.util, importlib.machinery
path = sys.argv[1]
loader = importlib.machinery.ExtensionFileLoader("selene_hugr_qis_compiler", path)
spec = importlib.util.spec_from_file_location("selene_hugr_qis_compiler", path, loader=loader)
m = importlib.util.module_from_spec(spec)
loader.exec_module(m)
i, o = sys.stdin.buffer, sys.stdout.buffer
while True:
    l = i.readline()
    if not l:
        break
    what, opt, n = l.split()
    b = i.read(int(n))
    try:
        if what == b"check":
            m.check_hugr(b)
            r, s = b"", b"ok"
        elif what == b"ir":
            r, s = m.compile_to_llvm_ir(b, opt_level=int(opt)).encode(), b"ok"
        else:
            r, s = m.compile_to_bitcode(b, opt_level=int(opt)), b"ok"
    except BaseException as e:
        r, s = f"{type(e).__name__}: {e}".encode(), b"error"
    o.write(s + b" %d\n" % len(r) + r)
    o.flush()
