"""cvc5 as a second opinion (through SMT-LIB)."""
import z3


def check(goals, ms):
    try:
        import cvc5
    except ImportError:
        return "unknown"
    s = z3.Solver()
    s.add(*goals)
    text = "(set-logic ALL)\n" + s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
    except Exception:  # noqa
        slv = cvc5.Solver()
    slv.setOption("tlimit-per", str(int(ms)))
    try:
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if "unsat" in str(out):
                res = "unsat"
            elif str(out).strip() == "sat":
                res = "sat"
        return res
    except Exception:  # noqa
        return "unknown"
