ID = "configuration-is-a-directory"
PROPERTY = "C24"
NEEDS = "a configuration file that is there but cannot be opened"
BREAKS = "the run goes on with the built-in defaults"
EDITS = [("src/marc.cpp", "            && errno != ENOENT) {", "            && errno != ENOENT && errno != ELOOP && errno != ENOTDIR) {")]
DEMO = '''
with Scratch() as s:
    s.put("in.marc", head() + simple(4, 4) + "PLANE:\\nLONGITUDE\\n")
    os.makedirs(os.path.join(s.dir, "x"))
    os.symlink("marc", os.path.join(s.dir, "x", "marc"))
    r = subprocess.run([MARC, "in.marc"], cwd=s.dir, env=dict(HOME=s.dir, XDG_CONFIG_HOME=os.path.join(s.dir, "x")),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    check(r.returncode != 0 and not s.exists("m.fits"), "an unreadable configuration file is ignored")
'''
