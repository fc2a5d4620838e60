"""automut.py OUT KIND FILE…: mutants made mechanically from lines of the original repository (redis: a writing statement of a script is left out; cond: a script's condition is
taken for true or false; py: a Python statement that awaits or assigns to self is left out), each tried against the quick checks of its file until one catches it."""
import os, re, shutil, subprocess, sys, tempfile
out, kind, files = sys.argv[1], sys.argv[2], sys.argv[3:]
ORDER = {
    "execution.py": "C19 C05 C21 C35 C22 C04 C10 C06 C11 C27 C02 C01 C28 C08",
    "worker.py": "C24 C19 C02 C10 C30 C01 C03 C07 C12 C29 C08 C25 C36 C34",
    "docket.py": "C22 C05 C06 C19 C21 C32 C30 C08 C12 C35",
    "_docket_snapshot.py": "C23", "_execution_progress.py": "C28 C21", "strikelist.py": "C08 C36", "agenda.py": "C31", "_uuid7.py": "C33", "_telemetry.py": "C34", "_perpetual": "",
    "_concurrency.py": "C14 C15 C21 C01", "_ratelimit.py": "C16 C21", "_cooldown.py": "C18 C21", "_debounce.py": "C17 C21", "_retry.py": "C10 C36", "_perpetual.py": "C11 C13 C12 C36", "_cron.py": "C13 C11", "_timeout.py": "C27 C25",
    "_resolution.py": "C26 C34", "_functional.py": "C26", "_contextual.py": "C35 C26", "_base.py": "C26 C35",
}
done = {l.split(": ")[0] for l in open(out)} if os.path.exists(out) else set()


def original(f):
    b = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "--abbrev=40", f], text=True).splitlines()
    return [l.startswith("^") for l in b]


def statements(f):
    L = open(f).read().splitlines(keepends=True)
    orig = original(f)
    i = 0
    while i < len(L):
        l = L[i]
        if kind == "redis" and re.match(r"\s*redis\.call\('(?!GET|HGET|EXISTS)", l) or kind == "py" and re.match(r"\s*(await |self\.\w+(\[.*\])? = |self\.[\w.]+\(|\w+\.\w+\()", l) and "logger" not in l:
            j, n = i, 0
            while True:
                n += L[j].count("(") - L[j].count(")") + L[j].count("[") - L[j].count("]") + L[j].count("{") - L[j].count("}")
                j += 1
                if n <= 0 or j - i > 40: break
            if all(orig[i:j]) and n == 0 and not L[j - 1].rstrip().endswith((":", "\\")):
                ind = re.match(r"\s*", l)[0]
                yield i, j, [ind + ("\n" if kind == "redis" else "pass\n")], l.strip()
            i = j
            continue
        if kind == "cond" and orig[i] and (m := re.match(r"(\s*)(if|elseif) (.*) then\s*$", l)):
            for v in ("true", "false"): yield i, i + 1, [f"{m[1]}{m[2]} {v} then\n"], f"{l.strip()} -> {v}"
        if kind == "pycond" and orig[i] and (m := re.match(r"(\s*)(if|elif) (.*):\s*$", l)) and "TYPE_CHECKING" not in l:
            for v in ("True", "False"): yield i, i + 1, [f"{m[1]}{m[2]} {v}:\n"], f"{l.strip()} -> {v}"
        i += 1


for f in files:
    p = "/repo/src/docket/" + f
    for i, j, new, what in list(statements(p)):
        name = f"{kind} {f}:{i + 1} {what}"[:110].replace(": ", ":")
        if name in done: continue
        w = tempfile.mkdtemp(prefix="am-", dir="/tmp")
        try:
            shutil.copytree("/repo/src", w + "/src", ignore=shutil.ignore_patterns("__pycache__"))
            L = open(p).read().splitlines(keepends=True)
            L[i:j] = new
            q = f"{w}/src/docket/{f}"
            open(q, "w").writelines(L)
            try: compile("".join(L), q, "exec")
            except SyntaxError: continue
            r = None
            for c in ORDER[os.path.basename(f)].split():
                x = subprocess.run(["timeout", "600", "/opt/venv/bin/python", "check.py", c, "quick"], cwd="/verif", env={**os.environ, "MC_REPO_SRC": w + "/src", "MC_SCRATCH": w}, capture_output=True, text=True)
                if x.returncode:
                    r = f"caught by {c}" if "VIOLATION" in x.stdout else f"{c} exits {x.returncode}"
                    break
            with open(out, "a") as o: o.write(f"{name}: {r or 'MISSED'}\n")
        finally:
            shutil.rmtree(w)
