"""check.py ID [--replay FILE]: decides one property.  See DESIGN.md."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("checks_" + {"C01": "text", "C02": "text", "C03": "machine", "C04": "machine", "C05": "edit",
                                               "C06": "machine", "C07": "text", "C08": "filters", "C09": "filters",
                                               "C10": "filters", "C11": "visit", "C12": "visit", "C13": "stretch",
                                               "C14": "stretch", "C15": "stretch", "C16": "arc", "C17": "arc", "C18": "arc",
                                               "C19": "temp", "C20": "temp", "C21": "cli", "C22": "duration",
                                               "C23": "chain"}[prop])
    c = common.Check(prop)
    try:
        getattr(mod, prop.lower())(c)
        rc = c.finish()
    except common.MachineryError as e:
        print("MACHINERY ERROR in %s: %s" % (prop, e))
        rc = 2
    finally:
        for x in c.proofs:
            try:
                common.os.killpg(x[4].pid, common.signal.SIGKILL)
            except OSError:
                pass
        c.work.close()
    sys.exit(rc)


if __name__ == "__main__":
    main()
