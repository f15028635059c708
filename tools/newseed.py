#!/usr/bin/env python3
"""newseed.py FILE: FILE is a python file which calls bug(id, property, [(file, old, new)...], needs, breaks, demo_cc)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# compiles demo.cc against the library that was built in /repo, and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -DLIBSUB_POSIX -DBOOST_NO_CXX11_SCOPED_ENUMS -D_FILE_OFFSET_BITS=64 -w -I/repo/src -I/repo "$here/demo.cc" -o "$tmp/demo" -L/repo/build/src -lsub-1.0 -lboost_filesystem -lboost_regex || exit 2
cd "$tmp" || exit 2
LC_ALL=C LD_LIBRARY_PATH=/repo/build/src timeout 60 ./demo "$tmp"
'''
PRE = '''#include "subrip_reader.h"
#include "web_vtt_reader.h"
#include "ssa_reader.h"
#include "stl_text_reader.h"
#include "stl_binary_reader.h"
#include "stl_binary_writer.h"
#include "reader_factory.h"
#include "collect.h"
#include "subtitle.h"
#include "raw_subtitle.h"
#include "sub_time.h"
#include "colour.h"
#include "exceptions.h"
#include "iso6937.h"
#include "iso6937_tables.h"
#include "stl_binary_tables.h"
#include "font_size.h"
#include "util.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <locale>
#include <new>
#include <cmath>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <list>
#include <map>

using namespace std;
using namespace sub;

static int failures = 0;
#define CHECK(x) do { if (!(x)) { ++failures; std::cerr << "line " << __LINE__ << ": " #x " does not hold\\n"; } } while (0)
#define NEAR(a, b) (std::fabs(double(a) - double(b)) < 1e-4)

'''


def bug(id, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for f, old, new in edits:
            p = os.path.join(tmp, "r", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "the text occurs %d times in %s:\n%s" % (s.count(old), f, old))
                return
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"]).decode()
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    body = demo.strip("\n")
    if "int main" not in body:
        body = "int main (int argc, char** argv)\n{\n\tstring const tmp = argc > 1 ? argv[1] : \".\";\n\ttry {\n%s\n\t} catch (std::exception& e) {\n\t\tstd::cerr << \"unexpected exception: \" << e.what() << \"\\n\";\n\t\treturn 1;\n\t}\n\treturn failures ? 1 : 0;\n}" % body
    open(os.path.join(d, "demo.cc"), "w").write(PRE + body + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", id)


exec(open(sys.argv[1]).read())
