"""Compute spec/layouts.json from the C headers in spec/c with gcc (x86-64): offsets, sizes, signedness.

python3 spec/gen_layouts.py           -> rewrite spec/layouts.json
python3 spec/gen_layouts.py --check   -> exit 1 if spec/layouts.json is not what gcc computes
"""
import json
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERSIONS = ["1.26", "2.3", "2.4", "2.5", "2.6", "2.7", "2.8", "2.9", "2.10", "2.11", "2.12"]
SCALARS = {
    "char": ("char", None), "unsigned char": ("int", False), "signed char": ("int", True), "float": ("float", None),
    "int": ("int", True), "unsigned int": ("int", False), "long": ("int", True), "unsigned long": ("int", False),
    "short": ("int", True), "unsigned short": ("int", False), "long long": ("int", True),
}
# Array field -> the counter beside it in the same structure (photosyst.h comments: "number of ... in array").
COUNTERS = {
    "CPUStat.cpu": "nrcpu", "MemNUMA.numa": "nrnuma", "CPUNUMA.numa": "nrnuma", "DSKStat.dsk": "ndsk",
    "DSKStat.mdd": "nmdd", "DSKStat.lvm": "nlvm", "IntfStat.intf": "nrintf", "NFSMounts.nfsmnt": "nrmounts",
    "ContStat.cont": "nrcontainer", "GPUStat.gpu": "nrgpus", "IFBStat.ifb": "nrports", "LLCStat.perllc": "nrllcs",
}


def parse(text):
    roots = dict(re.findall(r"/\* root (\w+) = struct (\w+) \*/", text))
    structs = {}
    for name, body in re.findall(r"struct (\w+) \{\n(.*?)\n\};", text, re.S):
        fields = []
        for line in body.splitlines():
            match = re.fullmatch(r"\s+(struct \w+|[a-z ]+?) (\w+)(?:\[(\d+)\])?;", line)
            ctype, fname, dim = match.groups()
            fields.append((fname, ctype, int(dim) if dim else None))
        structs[name] = fields
    return roots, structs


def compute():
    out = {}
    with tempfile.TemporaryDirectory() as tmp:
        for ver in VERSIONS:
            hdr = os.path.join(HERE, "c", f"atop_{ver.replace('.', '_')}.h")
            with open(hdr) as fh:
                roots, structs = parse(fh.read())
            src = ["#include <stdio.h>", "#include <stddef.h>", f'#include "{hdr}"', "int main(void){"]
            for name, fields in structs.items():
                src.append(f'printf("S {name} %zu\\n", sizeof(struct {name}));')
                for fname, _, _ in fields:
                    src.append(
                        f'printf("F {name} {fname} %zu %zu\\n", offsetof(struct {name}, {fname}),'
                        f" sizeof(((struct {name}*)0)->{fname}));"
                    )
            src.append("return 0;}")
            cfile, exe = os.path.join(tmp, "p.c"), os.path.join(tmp, "p")
            with open(cfile, "w") as fh:
                fh.write("\n".join(src))
            subprocess.run(["gcc", "-m64", "-o", exe, cfile], check=True)
            size, off = {}, {}
            for line in subprocess.run([exe], check=True, capture_output=True, text=True).stdout.splitlines():
                part = line.split()
                if part[0] == "S":
                    size[part[1]] = int(part[2])
                else:
                    off[part[1], part[2]] = (int(part[3]), int(part[4]))
            table = {}
            for name, fields in structs.items():
                rows = []
                for fname, ctype, dim in fields:
                    offset, fsize = off[name, fname]
                    row = {"name": fname, "off": offset, "size": fsize}
                    if "future" in fname:
                        row["reserved"] = True
                    if ctype.startswith("struct "):
                        row["kind"], row["struct"] = "struct", ctype[7:]
                        if dim is not None:
                            row["kind"], row["count"] = "array", dim
                            base = re.sub(r"_\d+$", "", name)
                            row["counter"] = COUNTERS.get(f"{base}.{fname}")
                    elif ctype == "char" and dim is not None:
                        row["kind"] = "text"
                    else:
                        row["kind"], signed = SCALARS[ctype]
                        if signed is not None:
                            row["signed"] = signed
                        if dim is not None:
                            row["kind"], row["count"], row["elem"] = "prims", dim, SCALARS[ctype][0]
                    rows.append(row)
                table[name] = {"size": size[name], "fields": rows}
            out[ver] = {"roots": roots, "structs": table}
    return out


def main():
    path = os.path.join(HERE, "layouts.json")
    data = json.dumps(compute(), indent=0, sort_keys=True) + "\n"
    if "--check" in sys.argv:
        with open(path) as fh:
            if fh.read() != data:
                print("spec/layouts.json does not match what gcc computes from spec/c")
                return 1
        print("spec/layouts.json matches gcc")
        return 0
    with open(path, "w") as fh:
        fh.write(data)
    return 0


if __name__ == "__main__":
    sys.exit(main())
