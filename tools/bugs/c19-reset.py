ID = "progress-of-later-planes"
PROPERTY = "C19"
NEEDS = "a map of several planes"
BREAKS = "the console does not start over at the next plane"
EDITS = [("lib/marc/Notifier.cpp", "        o->reset();", "        if (this->plot_count_ == map_size)\n            o->reset();")]
DEMO = '''
text = head() + "TYPE: ORTHO\\nSAMPLES: 20\\nLINES: 20\\n" + "PLANE:\\nLONGITUDE\\n" * 3
with Scratch() as s:
    s.put("in.marc", text)
    r = s.run("in.marc")
    check(r.returncode == 0, "run failed")
    check(r.stdout.count("100%") == 3, "progress: %r" % r.stdout)
'''
