ID = "no-memory-for-the-image"
PROPERTY = "C28"
NEEDS = "a source image that claims to be larger than the memory there is"
BREAKS = "the program is aborted by an exception that nobody catches"
EDITS = [("src/marc.cpp", "    } catch (std::exception const & e) {\n        /*", "    } catch (std::runtime_error const & e) {\n        std::fprintf(stderr,\n                     \"[\" PACKAGE \"][error] %s\\n\",\n                     e.what());\n\n        return -1;\n    } catch (std::logic_error const & e) {\n        /*")]
DEMO = '''
import resource
def little():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
text = head() + simple(4, 4) + "PLANE:\\n" + image("p.fits", centre=(4, 4), scale="KM_PER_PIXEL: 600")
for n in (8, 4000000):
    with Scratch() as s:
        b = fits_image(16, 8, 8, [3] * 64).replace(b"NAXIS2  = %20d" % 8, b"NAXIS2  = %20d" % n).replace(b"NAXIS1  = %20d" % 8, b"NAXIS1  = %20d" % n)
        s.put("p.fits", b)
        s.put("in.marc", text)
        r = s.run("in.marc", preexec=little)
        check(r.returncode >= 0, "killed by signal %d" % -r.returncode)
        check((r.returncode == 0) == (n == 8), "status %d" % r.returncode)
        check(n == 8 or "error" in (r.stdout + r.stderr).lower(), "no error message")
'''
