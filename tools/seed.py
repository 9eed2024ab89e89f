"""Writes seeded/ID from a description: the edits to /repo, a demonstration program, and what it is about."""
import json, os, subprocess, sys

V = "/verif/seeded"
RUN = '''
fn run<T: Send>(nets: &[LocalNetwork], f: impl Fn(usize, &LocalNetwork) -> T + Sync) -> Vec<T> {
    std::thread::scope(|s| {
        let hs: Vec<_> = nets.iter().enumerate().map(|(i, n)| { let f = &f; s.spawn(move || f(i, n)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}
'''


def bug(id, prop, edits, main, needs, breaks):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = f"{V}/{id}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    for f, old, new in edits:
        p = f"/repo/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(id, "edit site occurs", t.count(old), "times in", f, "::", old[:60])
            return
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True, check=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/main.rs", "w").write(main.replace("//RUN", RUN).lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    r = subprocess.run(["bash", "/verif/tools/plant.sh", id], capture_output=True, text=True)
    print(r.stdout.strip(), flush=True)
    for f in ("clean", "bug"):
        t = open(f"/tmp/demo.{f}").read().strip().splitlines()
        print("   ", f, ":", " | ".join(t[-2:])[:300], flush=True)
