"""Which engine decides which property, and within which bounds."""

ASSUMPTIONS = [
    "Sequentially consistent interleavings of the instrumented atomic operations, plus happens-before tracking of the"
    " declared memory orderings (a read of data that is not ordered after its publication fails); weaker-than-SC"
    " value reordering of atomics is not enumerated.",
    "The dependencies sdd 4.5.3 and saa 5.4.10 are executed (sdd from a vendored copy with scheduling hooks), not verified.",
    "Bounded: two or three threads with the listed operations from the catalogued container states, and the preemption"
    " bound recorded for each scenario.",
]

MC = "stateless model checking of the real code: exhaustive schedule enumeration under a controlled scheduler, preemption-bounded"
SEQ = "bounded exhaustive enumeration of operation sequences of the real code against a reference model"
FLT = "exhaustive enumeration of fault points over operation sequences of the real code"


def conc(**k):
    return dict(engine="conc", **k)


def seq(**k):
    return dict(engine="seq", **k)


PLAN = {}


def add(pid, level, technique, parts, note, assumptions=()):
    PLAN[pid] = {"level": level, "technique": technique, "parts": parts, "note": note, "assumptions": list(assumptions)}


N = ("Every schedule of the catalogued scenarios up to the preemption bound recorded in the evidence (many scenarios are"
     " explored completely) is executed on the real code and judged by the oracle; trusts the engine (self-tested), the"
     " sdd/saa dependencies and sequential consistency of atomics.")
# Types that need no drop take other paths when entries and overflow buckets are reclaimed.
def plain(filter, share):
    return conc(plain=True, filter=filter, budget={"quick": share})


for _p in "C02 C15 C20 C23".split():
    add(_p, "model_checking", MC, [conc()], N)
add("C04", "model_checking", MC, [conc(), plain("index-", 8e8)], N)

NS = ("Every operation sequence of the catalogued families (initial state, alphabet per position, depth) is executed on the"
      " real container and compared step by step with a reference model; trusts the model, which encodes the documented"
      " results of every method.")
for _p in "C06 C10 C11 C12 C22 C25".split():
    add(_p, "model_checking", SEQ, [seq()], NS)
for _p in "C01 C03 C05 C07 C08 C09 C14 C16 C18 C19 C21".split():
    parts = {"C03": [plain("index-", 6e8)], "C14": [plain("-", 6e8)]}.get(_p, [])
    add(_p, "model_checking", MC + "; " + SEQ, [conc()] + parts + [seq()], N + " " + NS)

NF = ("Every operation of the alphabet in every catalogued state and after every listed prefix is interrupted at every fault"
      " point it reaches (%s), one after another, on the real code; the state found afterwards must be one the interrupted"
      " operation may leave, the container must work on, and nothing may leak or be dropped twice.")
add("C17", "fault_enumeration", FLT, [seq(faults="A case is an initial state, a prefix of operations and an operation; it is run once"
    " for every call into user code that the operation makes, with that call panicking. Non-trivial: the injected panic was"
    " reached.")], NF % "every call into user code, which panics")
add("C24", "fault_enumeration", FLT, [seq(faults="A case is an initial state, a prefix of operations and an operation; it is run once"
    " for every allocation that the operation makes, with that allocation failing. Non-trivial: the injected failure was"
    " reached.")], NF % "every allocation, which fails")
