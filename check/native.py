"""native.py LIB ENTRY MODEL: runs one harness natively on one model (a panic aborts this process)."""
import ctypes
import resource
import sys
import threading

resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
lib = ctypes.CDLL(sys.argv[1])
p = sys.argv[3].encode()
lib.vp_load(p, ctypes.c_uint64(len(p)))
threading.stack_size(512 << 20)
t = threading.Thread(target=getattr(lib, sys.argv[2]))
t.start()
t.join()
print("DONE", flush=True)
