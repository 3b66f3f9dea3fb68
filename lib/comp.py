"""Runs one history of calls on a component driver: commands in, one JSON object per command out."""
import json
import os
import subprocess

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=0")


def run(exe, lines, timeout=20, cwd=None, env=None):
    """-> (list of replies, None or how it died)"""
    e = dict(ENV, **(env or {}))
    try:
        p = subprocess.run([exe], input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=cwd, env=e)
        rc, out, err = p.returncode, p.stdout, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        rc, out, err = "timeout", x.stdout or b"", ""
    res = []
    for ln in out.split(b"\n"):
        if ln.startswith(b"{"):
            try:
                res.append(json.loads(ln.decode("latin-1")))
            except ValueError:
                pass
    if rc == 0 and len(res) == len(lines):
        return res, None
    k = len(res)
    what = "no answer within %ss" % timeout if rc == "timeout" else "died (%s)" % rc
    head = [x for x in err.splitlines() if "ERROR" in x or "error" in x or x.lstrip().startswith("#")][:9]
    return res, "%s at command %d: %s\n%s" % (what, k, lines[k] if k < len(lines) else "end", "\n".join(head) or err[-800:])
