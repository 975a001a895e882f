"""Forks simulated processes in an interpreter with its own hash seed, on request of a worker."""
import gc
import os
import pickle
import socket
import sys
import types

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("DST_REPO", "/repo"))


def main():
    import node
    import sim
    node.preload()
    gc.collect(); gc.freeze(); gc.disable()
    ctl = socket.socket(fileno=int(sys.argv[1]))
    while True:
        msg, fds, _, _ = socket.recv_fds(ctl, 1 << 17, 4)
        if not msg:
            return
        m = pickle.loads(msg)
        if m is None:
            ctl.send(pickle.dumps("ready"))
        elif m[0] == "wait":
            try:
                st = os.waitpid(m[1], 0)[1]
            except ChildProcessError:
                st = 0
            ctl.send(pickle.dumps(st))
        else:
            d, spec = m[1:]
            pid = os.fork()
            if pid == 0:
                try:
                    ctl.close()
                    s = types.SimpleNamespace(**d)
                    s.p = lambda rel: os.path.join(s.root, rel)
                    node.node_main(s, spec, socket.socket(fileno=fds[0]))
                except BaseException:
                    try:
                        sim.LIB.dst_pause(1)
                        with open(os.path.join(d["spool"], "harness-error"), "a") as f:
                            import traceback
                            f.write(spec["id"] + ": " + traceback.format_exc() + "\n")
                    except BaseException:
                        pass
                finally:
                    os._exit(98)
            os.close(fds[0])
            ctl.send(pickle.dumps(pid))


if __name__ == "__main__":
    main()
