"""Crash and fault injection at the file-system operations of the real code.

The operations are observed through the interpreter's audit events in a forked child, which dies
(os._exit: nothing buffered reaches the disk any more) or gets an OSError at a chosen operation."""
import os
import sys

WRITES = {"os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.link", "os.symlink", "shutil.move", "shutil.copyfile", "sqlite3.connect"}
FAILABLE = {"open", "os.rename", "os.mkdir"}


def _is_write(event, args):
    if event in WRITES:
        return True
    if event == "open":
        mode, flags = args[1], args[2]
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            return True
        return isinstance(mode, str) and any(c in mode for c in "wax+")
    return False


def inject(fn, root, at=None, how="count"):
    """run fn in a child; how: count | stop | torn | empty | opened (right after the file was opened) | fail.
    -> (number of operations seen before the end or the crash, outcome) outcome: done | crashed | raised"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        st = {"n": 0, "last": None, "on": True}

        def hook(event, args):
            if not st["on"] or not _is_write(event, args):
                return
            path = args[0]
            if isinstance(path, int):
                return
            path = os.fsdecode(path) if isinstance(path, (str, bytes, os.PathLike)) else ""
            relative = event in ("os.remove", "os.rmdir", "os.mkdir") and not os.path.isabs(path)
            if not relative and not os.path.abspath(path).startswith(root):
                return
            k = st["n"]
            st["n"] += 1
            if k == at:
                if how == "fail":
                    st["at"] = event
                    if event in FAILABLE:
                        raise OSError(28, "No space left on device", path)
                else:
                    st["on"] = False
                    if how in ("torn", "empty") and st["last"] and os.path.isfile(st["last"]):
                        size = os.path.getsize(st["last"])
                        os.truncate(st["last"], 0 if how == "empty" else size // 2)
                    if how == "opened" and event == "open" and isinstance(args[2], int) and args[2] & os.O_TRUNC:
                        os.close(os.open(path, args[2]))
                    os.write(w, f"{k} crashed".encode())
                    os._exit(0)
            st["last"] = path if event == "open" else None

        sys.addaudithook(hook)
        try:
            fn()
            out = "done"
        except BaseException as e:  # noqa: BLE001
            out = "raised"
            if os.environ.get("VF_STDERR"):
                sys.stderr.write(f"inject: {type(e).__name__}: {e}\n")
        st["on"] = False
        os.write(w, f"{st['n']} {out}".encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    n, out = data.decode().split()
    return int(n), out


def points(g, n, cap):
    """(operation, kind of interruption) pairs to try for a write of n operations"""
    al = [(k, how) for k in range(n) for how in ("stop", "torn", "empty", "opened", "fail")]
    al += [(n, "stop")]
    if len(al) <= cap:
        return al
    ix = sorted(g.rng.choice(len(al), size=cap, replace=False).tolist())
    return [al[i] for i in ix]
