"""Scenario files, running them in fresh processes, and minimising them."""
import os, re, subprocess, tempfile, time


class Scenario:
    def __init__(self, head, steps):
        self.head, self.steps = head, steps  # steps: list of (op and options, argument text)

    @staticmethod
    def parse(text):
        head, steps, body = {}, [], False
        for line in text.split("\n"):
            if not line:
                continue
            if line == "--":
                body = True
            elif not body:
                k, _, v = line.partition("=")
                head[k] = v
            else:
                a, sep, b = line.partition(" | ")
                steps.append((a, b if sep else None))
        return Scenario(head, steps)

    def text(self):
        out = ["%s=%s" % kv for kv in sorted(self.head.items())] + ["--"]
        for a, b in self.steps:
            out.append(a if b is None else a + " | " + b)
        return "\n".join(out) + "\n"


class Result:
    def __init__(self, kind, message, digest, output):
        self.kind, self.message, self.digest, self.output = kind, message, digest, output

    @property
    def bad(self):
        return self.kind is not None


def violation_class(message):
    return re.sub(r"\d+", "#", message.split(":")[0])


def run_text(exe, text, scratch=None, timeout=90, trace=False):
    fd, path = tempfile.mkstemp(suffix=".scen", dir=scratch)
    with os.fdopen(fd, "wb") as f:
        f.write(text.encode("utf-8", "surrogateescape"))
    try:
        return run_file(exe, path, timeout, trace)
    finally:
        os.unlink(path)


def run_file(exe, path, timeout=90, trace=False):
    try:
        p = subprocess.run([exe, "run", path] + (["trace"] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf-8", "surrogateescape"), p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf-8", "surrogateescape"), -14
    m = re.search(r"^VIOLATION-SEEN (.*)$", out, re.M)
    d = re.search(r"^DIGEST (\w+)", out, re.M)
    digest = d.group(1) if d else None
    if m:
        return Result(violation_class(m.group(1)), m.group(1), digest, out)
    if rc == 0:
        return Result(None, None, digest, out)
    m = re.search(r"AddressSanitizer:? ([\w-]+)", out) or re.search(r"AddressSanitizer: (.*)", out)
    what = m.group(1) if m else ("a run that never ends" if rc in (-14, 142, -9) else "exit status %d" % rc)
    return Result("crash " + what, "memory error or crash: " + what, digest, out)


# ---------------------------------------------------------------------------- s-expressions
TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|[()]|[^\s()"]+')


def parse_form(s):
    """Returns nested lists of tokens, or None when the text is not one form."""
    stack, out = [[]], None
    pos = 0
    for m in TOKEN.finditer(s):
        if s[pos:m.start()].strip():
            return None
        pos = m.end()
        t = m.group(0)
        if t == "(":
            stack.append([])
        elif t == ")":
            if len(stack) < 2:
                return None
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    if len(stack) != 1 or len(stack[0]) != 1 or s[pos:].strip():
        return None
    return stack[0][0]


def show(f):
    return f if isinstance(f, str) else "(" + " ".join(show(x) for x in f) + ")"


def variants(form):
    """Smaller versions of the form, big cuts first."""
    nodes = []

    def walk(f, path):
        if isinstance(f, list):
            nodes.append((len(show(f)), path, f))
            for i, x in enumerate(f):
                walk(x, path + [i])
    walk(form, [])
    nodes.sort(key=lambda n: -n[0])

    def replace(path, new):
        def go(f, p):
            if not p:
                return new
            return [go(x, p[1:]) if i == p[0] else x for i, x in enumerate(f)]
        return go(form, path)
    for _, path, f in nodes:
        n = len(f)
        size = n // 2
        while size >= 1:
            for i in range(1, n, size):
                yield replace(path, f[:i] + f[i + size:])
            if size == 1:
                break
            size //= 2
        for x in f:
            if isinstance(x, list):
                yield replace(path, x)
        if path and n:
            yield replace(path, "1")
            yield replace(path, [])


def shrink(exe, text, kind, seconds, scratch=None, log=None, prefix=None):
    """Minimises a scenario that shows a violation of class `kind`."""
    end = time.time() + seconds
    best = Scenario.parse(text)
    tried = set()

    def fails(s):
        t = s.text()
        if t in tried:
            return False
        tried.add(t)
        return run_text(exe, t, scratch, timeout=70 if "never ends" in kind else 20).kind == kind

    def steps_pass():
        nonlocal best
        changed = False
        size = max(1, len(best.steps) // 2)
        while True:
            i = 0
            while i < len(best.steps) and time.time() < end:
                c = Scenario(best.head, best.steps[:i] + best.steps[i + size:])
                if fails(c):
                    best, changed = c, True
                else:
                    i += size
            if size == 1:
                return changed
            size //= 2

    def options_pass():
        nonlocal best
        changed = False
        for i, (a, b) in enumerate(list(best.steps)):
            words = a.split(" ")
            for w in list(words[1:]):
                if time.time() > end:
                    return changed
                cands = [[x for x in words if x != w]]
                m = re.match(r"alloc=(.*,.*)$", w)
                if m:
                    parts = m.group(1).split(",")
                    for j in range(len(parts)):
                        cands.append([x if x != w else "alloc=" + ",".join(parts[:j] + parts[j + 1:]) for x in words])
                for c in cands:
                    s = Scenario(best.head, best.steps[:i] + [(" ".join(c), b)] + best.steps[i + 1:])
                    if fails(s):
                        best, words, changed = s, c, True
                        break
        for k in list(best.head):
            if k in ("kind", "prop", "variant", "seed", "globals", "oom") or time.time() > end:
                continue
            s = Scenario({x: y for x, y in best.head.items() if x != k}, best.steps)
            if fails(s):
                best, changed = s, True
        return changed

    def forms_pass():
        nonlocal best
        changed = False
        for i in range(len(best.steps)):
            while time.time() < end:
                a, b = best.steps[i]
                form = parse_form(b) if b else None
                if form is None:
                    break
                for v in variants(form):
                    if time.time() > end:
                        break
                    t = show(v)
                    if len(t) >= len(b):
                        continue
                    s = Scenario(best.head, best.steps[:i] + [(a, t)] + best.steps[i + 1:])
                    if fails(s):
                        best, changed = s, True
                        break
                else:
                    break
        return changed

    while time.time() < end:
        c = steps_pass()
        c = options_pass() or c
        c = forms_pass() or c
        if not c:
            break
    return best.text()


if __name__ == "__main__":
    import sys
    exe, path = sys.argv[1:3]
    text = open(path, errors="surrogateescape").read()
    r = run_text(exe, text)
    print(r.kind, r.message)
    if r.bad:
        out = shrink(exe, text, r.kind, float(sys.argv[3]) if len(sys.argv) > 3 else 60)
        open(path + ".min", "w", errors="surrogateescape").write(out)
        print(out)
        r = run_text(exe, out)
        print(r.kind, r.message)
