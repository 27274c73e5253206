"""Mutation survey: one small change at a time in a scratch copy of the repository, then a short survey.
    mutate.py REPO VERIF SEED COUNT LOG FILE...      (REPO and VERIF are scratch copies)
Each line of LOG: what changed, and which properties' rules reported it.  A tool for finding blind spots, not a check."""
import json, os, random, re, subprocess, sys, time

repo, verif, seed, count, log = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
files = sys.argv[6:]
R = random.Random(seed)
BATCH = [x.split(":") for x in os.environ.get("BATCH", "ledger:B02:120 ledger:B06:120 ledger:B15:120 ledger:A04:120 ledger:B09:80 ledger:B04:120 rules:B16:300 rules:I01:200").split()]
KNOWN = {("B02", "pruned_by_stale_count"), ("B02", "pruned_after_replaced")}
SWAPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ 1\b", " + 0"), (r" - 1\b", " - 0"), (r" \+ ", " - "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bOk\(true\)", "Ok(false)"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".is_empty() == false"), (r"if !", "if "), (r"\bif ([a-z_.]+\([^()]*\)) \{", r"if !\1 {"),
    (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"Ordering::Less", "Ordering::Greater"), (r"\b(\d{2,})\b", lambda m: str(int(m.group(1)) + 1)),
    (r"Some\(([a-z_]+)\)$", "None"), (r"\bcontinue;", ""), (r"\bbreak;", ""),
]
SKIP = re.compile(r"^\s*(//|#\[|use |pub use|pub mod|mod |warn!|info!|error!|debug!|pub fn|fn |pub\(crate\) fn|async fn|impl|struct|enum|pub struct|pub enum|pub const|const)|metric|statsd|\.count\(|gauge|warn!|info!|error!|debug!|time_with|->|::<")


def body(path):
    lines = open(path).read().split("\n")
    end = len(lines)
    for i, l in enumerate(lines):
        if l.strip() == "#[cfg(test)]" and i + 1 < len(lines) and re.match(r"\s*(pub )?mod ", lines[i + 1]):
            end = i
            break
    return lines, end


def mutants(path):
    lines, end = body(path)
    out = []
    for i in range(end):
        l = lines[i]
        if SKIP.search(l) or not l.strip():
            continue
        for a, b in SWAPS:
            for m in re.finditer(a, l):
                new = l[: m.start()] + re.sub(a, b, m.group(0)) + l[m.end():]
                if new != l:
                    out.append((i, new))
        # a statement goes
        if re.match(r"^\s+[a-z_.]+\([^;]*\)\??;$", l) or re.match(r"^\s+txn\.\w+\(.*\);$", l):
            out.append((i, re.match(r"^\s*", l).group(0) + "();"))
    return lines, out


def sh(cmd, t):
    try:
        p = subprocess.run(cmd, shell=True, cwd=verif, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=dict(os.environ, SNAP_REPO=repo))
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


pool = {f: mutants(os.path.join(repo, f)) for f in files}
total = {f: len(pool[f][1]) for f in files}
print(total)
done = 0
while done < count:
    f = R.choice([f for f in files if pool[f][1]])
    lines, ms = pool[f]
    i, new = ms.pop(R.randrange(len(ms)))
    path = os.path.join(repo, f)
    old = open(path).read()
    ls = list(lines)
    ls[i] = new
    open(path, "w").write("\n".join(ls))
    t0 = time.time()
    try:
        rc, out = sh("bash build.sh", 900)
        if rc != 0:
            continue
        hits, runs = {}, 0
        for w, focus, n in BATCH:
            rc, out = sh(f"timeout 200 harness/target/debug/snapsim survey {w} {focus} -n {n}", 260)
            if rc == 124:
                hits[f"{w}/{focus} timeout"] = 1
                break
            for m in re.finditer(r"(?m)^([A-Z]\d\d) (\w+): (\d+) of", out):
                if (m.group(1), m.group(2)) not in KNOWN:
                    k = f"{m.group(1)} {m.group(2)}"
                    hits[k] = hits.get(k, 0) + int(m.group(3))
            if len(hits) >= 3 and sum(hits.values()) > 60:
                break
        done += 1
        rec = {"file": f, "line": i + 1, "old": lines[i].strip(), "new": new.strip(), "hits": hits, "s": round(time.time() - t0)}
        open(log, "a").write(json.dumps(rec) + "\n")
    finally:
        open(path, "w").write(old)
