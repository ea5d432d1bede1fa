TRACE = "TLA+ specification of the command interpreter; traces of the real code checked by TLC against it"
NOTE = ("Random specifications and uses (seeded) run on the real code under AddressSanitizer; TLC checks that every recorded "
        "result is the one spec/Cli.tla and spec/Exec.tla determine. Sampling over inputs, exact oracle; trusts TLC, the text/structure "
        "pair the generator emits, and the driver's recording.")
CLAIMED = {p: (TRACE, NOTE) for p in
           "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C19 C20 C21 C23 C25 C26".split()}
MODEL = "TLA+ specification; all behaviours of a bounded TLC model replayed into the code, traces of random histories checked by TLC"
MNOTE = ("Every behaviour of the bounded model is replayed into the real code under AddressSanitizer and compared step by step; "
         "longer random histories are run on the code and every recorded step is checked by TLC against the specification. "
         "Exhaustive within the model's bounds, sampling beyond; trusts TLC and the driver's recording.")
CLAIMED.update({p: (MODEL, MNOTE) for p in "C17 C18 C22 C24".split()})
NOT = {}
