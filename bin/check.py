#!/usr/bin/env python3
"""check.py <property> <quick|thorough>"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vt

TABLE = {"C01": ("p_scalar", "c01"), "C02": ("p_scalar", "c02"), "C03": ("p_curve", "c03"),
         "C04": ("p_point", "c04"), "C05": ("p_point", "c05"),
         "C06": ("p_circ", "c06"), "C19": ("p_circ", "c19"), "C20": ("p_circ", "c20"), "C21": ("p_circ", "c21"), "C22": ("p_circ", "c22"), "C23": ("p_circ", "c23"),
         "C24": ("p_lib", "c24"), "C25": ("p_lib", "c25"), "C26": ("p_lib", "c26"), "C27": ("p_lib", "c27"), "C28": ("p_e2e", "c28"),
         "C07": ("p_files", "c07"), "C08": ("p_files", "c08"), "C09": ("p_files", "c09"), "C10": ("p_files", "c10"), "C11": ("p_poly", "c11"), "C12": ("p_poly", "c12"), "C13": ("p_proto", "c13"), "C14": ("p_fs", "c14"), "C17": ("p_snark", "c17"), "C18": ("p_proto", "c18"), "C15": ("p_proto", "c15"), "C16": ("p_proto", "c16")}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, fn = TABLE[pid]
    c = vt.Check(pid, tier)
    try:
        getattr(__import__(mod), fn)(c)
    except vt.ToolError as e:
        print("%s: could not be decided: %s" % (pid, e), file=sys.stderr)
        if c.violations:
            sys.exit(c.finish())
        sys.exit(2)
    sys.exit(c.finish())


if __name__ == "__main__":
    main()
