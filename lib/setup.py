"""Nothing is prebuilt: every check compiles the sources of /repo itself. Here only the tools are verified and the modules parsed."""
import subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
subprocess.run(["gcc", "--version"], check=True, stdout=subprocess.DEVNULL)
mods = sorted(f for f in os.listdir(os.path.join(V, "spec")) if f.endswith(".tla"))
p = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY"] + mods, cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode != 0 or "*** Errors" in p.stdout:
    print(p.stdout[-3000:]); sys.exit(1)
print("%d modules parsed" % len(mods))
