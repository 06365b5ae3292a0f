"""Lock scenarios: runs harness/lockrun (the LIB argument is its executable) and hands its histories on.
profile: <strategy>-<profile>; args: [bound, part, parts, most histories, schedules per scenario]"""
import os, subprocess, sys
def main():
    exe, profile, seed, count, out = sys.argv[1:6]; rest = sys.argv[6:]
    st, _, prof = profile.partition("-")
    open(os.path.join(out, "vals.json"), "w").write("{}")
    r = subprocess.run([exe, st, str(int(seed) + 1), count, out, prof or "small"] + rest, stdout=subprocess.DEVNULL)
    if r.returncode < 0: os.kill(os.getpid(), -r.returncode)
    sys.exit(r.returncode)
if __name__ == "__main__": main()
