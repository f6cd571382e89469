"""C09: token sequences.  The token stream of the documents seq[0], seq[1], ... : document d begins at tokens(d), the sum of the lengths
before it; its begin token, its tokens and its end token follow."""
import z3
from pyvc import ty
from pyvc.engine import V
from contracts.base import function, macro, sumfn, LIB

T = "mixtera/utils/tokenizing_iterator.py"
LI = ty.parse("List[Int]")
LIB.ufuncs = getattr(LIB, "ufuncs", {})
LIB.ufuncs["tokenize"] = (["Tok", "Str"], "List[Int]")      # the tokens of a document
LIB.attrs[("Tok", "bos_token_id")] = ty.INT
LIB.attrs[("Tok", "eos_token_id")] = ty.INT


def tlen(tok, t):
    return ty.l_len(LI, z3.Function("tokenize", ty.sort(ty.parse("Tok")), ty.sort(ty.STR), ty.sort(LI))(tok, t))


sumfn("flat_int", "List[Int]", [], "Int", lambda l: ty.l_len(LI, l.z))
sumfn("tokens", "Str", ["Tok", "Int"], "Int", lambda e, tok, extra: tlen(tok.z, e.z) + extra.z)
NB, NE = "(1 if self.use_bos_token else 0)", "(1 if self.use_eos_token else 0)"
PS = f"self.tokenizer, {NB} + {NE}"
TOKS = lambda n: f"tokens(self.iterator, {n}, {PS})"
SEQ, B = "self.iterator.seq", "self.buffer"
DOC = f"tokenize(self.tokenizer, {SEQ}[d])"
BOS, EOS = "self.tokenizer.bos_token_id", "self.tokenizer.eos_token_id"


def stream(upto, buf=B):
    """buf is the token stream of the first `upto` documents"""
    return [f"0 <= {upto} and {upto} <= self.iterator.n and len({buf}) == {TOKS(upto)}",
            f"forall('Int', lambda d: implies(0 <= d and d < {upto}, {TOKS('d')} >= 0 and {TOKS('d')} + len({DOC}) + {NB} + {NE} <= len({buf})), trig=({SEQ}[d]))",
            f"forall('Int', lambda d: implies(0 <= d and d < {upto} and self.use_bos_token, {buf}[{TOKS('d')}] == {BOS}), trig=({SEQ}[d]))",
            f"forall('Int', lambda d: implies(0 <= d and d < {upto} and self.use_eos_token, {buf}[{TOKS('d')} + {NB} + len({DOC})] == {EOS}), trig=({SEQ}[d]))",
            f"forall('Int,Int', lambda d, j: implies(0 <= d and d < {upto} and 0 <= j and j < len({DOC}), {buf}[{TOKS('d')} + {NB} + j] == {DOC}[j]), trig=({DOC}[j]))"]


def encode(lib, E, node, st):
    """the tokenizer encodes a batch document by document"""
    if "Exception" in E.c.get("raises", {}):
        E.may_raise("Exception", ty.fresh("encoded_ok", z3.BoolSort()), st, "the tokenizer does not fail", node.lineno)
    texts = E.coerce(E.ev1(node.args[0], st), ty.parse("List[Str]"), st)
    tok = E.ev1(node.func, st)
    r = E.fresh_value("encoded", ty.parse("Dict[Str,List[List[Int]]]"), st)
    k = E.strlit("input_ids")
    st.pc.append(z3.Select(ty.d_dom(r.t, r.z), k))
    x = z3.Select(ty.d_val(r.t, r.z), k)
    lt = r.t.args[1]
    m = ty.fresh("m", z3.IntSort())
    xm = z3.Select(ty.l_arr(lt, x), m)
    tm = z3.Select(ty.l_arr(texts.t, texts.z), m)
    st.pc.append(ty.l_len(lt, x) == ty.l_len(texts.t, texts.z))
    e = lib.spec_call(E, "tokenize", [tok, V(ty.STR, tm)], st)
    for pat in (xm, tm):
        st.pc.append(ty.forall([m], z3.Implies(z3.And(0 <= m, m < ty.l_len(lt, x)), xm == e.z), [pat]))
    E.ext_used.add("the tokenizer encodes every document of a batch by itself")
    return [(st, r)]


X = "encoded_batch['input_ids']"
TX = "tokenize(self.tokenizer, texts[m])"


def docs(upto_b, upto_e):
    """the first upto_b documents of the batch have their begin token, the first upto_e their end token"""
    b, e = f"(1 if self.use_bos_token and m < {upto_b} else 0)", f"(1 if self.use_eos_token and m < {upto_e} else 0)"
    return [f"len({X}) == len(texts) and 'input_ids' in encoded_batch",
            f"forall('Int', lambda m: implies(0 <= m and m < len(texts), len({X}[m]) == len({TX}) + {b} + {e} and implies({b} == 1, {X}[m][0] == {BOS}) and implies({e} == 1, {X}[m][{b} + len({TX})] == {EOS})), trig=({X}[m]))",
            f"forall('Int,Int', lambda m, j: implies(0 <= m and m < len(texts) and 0 <= j and j < len({TX}), {X}[m][{b} + j] == {TX}[j]), trig=({TX}[j]))"]


P0 = "old(self.iterator.pos)"
FETCHED = [f"len(texts) == self.iterator.pos - {P0} and self.iterator.pos <= self.iterator.n and sameseq(self.iterator, old(self.iterator))",
           f"all(texts[m] == {SEQ}[{P0} + m] for m in range(len(texts)))",
           f"forall('Int', lambda d: implies({P0} <= d and d < self.iterator.pos, texts[d - {P0}] == {SEQ}[d]), trig=({SEQ}[d]))"]
FIELDS = {"iterator": "Iter[Str]", "tokenizer": "Tok", "batch_size": "Int", "use_bos_token": "Bool", "use_eos_token": "Bool", "buffer": "List[Int]", "eos": "Bool"}
NEXT = dict(FIELDS, chunk_index="Int", sequence_length="Int", _step_size="Int", yielded_samples="Int", at_least_one_sample="Bool", overlap="Bool")
GREW = ["len(self.buffer) >= old(len(self.buffer)) and all(self.buffer[i] == old(self.buffer)[i] for i in range(old(len(self.buffer))))"]
SAME = f"sameseq(self.iterator, old(self.iterator)) and self.iterator.pos >= old(self.iterator.pos)"
L0 = "len(old(self.buffer))"


def cuts(P0, OB, batch="True"):
    """intermediate facts for the clauses of stream(): P0 is the position before the batch, OB the buffer before it"""
    L0 = f"len({OB})"
    NEW = f"{P0} <= d and d < self.iterator.pos"
    CUT = [f"forall('Int', lambda d: implies({batch} and {NEW}, {TOKS('d')} == {L0} + flat_int({X}, d - {P0}) and len({X}[d - {P0}]) == len({DOC}) + {NB} + {NE}), trig=({SEQ}[d]))",
           f"forall('Int', lambda d: implies({batch} and {NEW}, flat_int({X}, d - {P0}) >= 0 and {L0} + flat_int({X}, d - {P0}) + len({X}[d - {P0}]) <= len({B})), trig=({SEQ}[d]))",
           f"forall('Int,Int', lambda m, j: implies({batch} and 0 <= m and m < len({X}) and 0 <= j and j < len({X}[m]), {B}[{L0} + flat_int({X}, m) + j] == {X}[m][j]), trig=({X}[m][j]))",
           f"all({B}[i] == {OB}[i] for i in range({L0}))",
           f"forall('Int,Int', lambda d, j: implies({batch} and {NEW} and 0 <= j and j < len({DOC}), {X}[d - {P0}][{NB} + j] == {DOC}[j]), trig=({DOC}[j]))"]

    def at_new(cond, j, val):
        jm = j.replace(DOC, TX)
        cond = f"{batch} and {cond}"
        return [f"forall('Int', lambda m: implies(0 <= m and m < len({X}) and {cond}, {X}[m][{jm}] == {val}), trig=({X}[m]))",
                f"forall('Int', lambda m: implies(0 <= m and m < len({X}) and {cond}, {B}[{L0} + flat_int({X}, m) + ({jm})] == {val}), trig=({X}[m]))",
                f"forall('Int', lambda d: implies({NEW} and {cond}, {X}[d - {P0}][{j}] == {val}), trig=({SEQ}[d]))",
                f"forall('Int', lambda d: implies({NEW} and {cond}, {B}[{L0} + flat_int({X}, d - {P0}) + ({j})] == {val}), trig=({SEQ}[d]))",
                f"forall('Int', lambda d: implies({NEW} and {cond}, {B}[{TOKS('d')} + ({j})] == {val}), trig=({SEQ}[d]))",
                f"forall('Int', lambda d: implies(0 <= d and d < {P0} and {cond}, {TOKS('d')} + ({j}) < {L0} and {OB}[{TOKS('d')} + ({j})] == {val}), trig=({SEQ}[d]))",
                f"forall('Int', lambda d: implies(0 <= d and d < {P0} and {cond}, {B}[{TOKS('d')} + ({j})] == {val}), trig=({SEQ}[d]))"]
    return {1: CUT[:2], 2: CUT + at_new('self.use_bos_token', '0', BOS), 3: CUT + at_new('self.use_eos_token', f'{NB} + len({DOC})', EOS),
            4: CUT + [f"forall('Int,Int', lambda d, j: implies({batch} and {NEW} and 0 <= j and j < len({DOC}), {B}[{L0} + flat_int({X}, d - {P0}) + ({NB} + j)] == {DOC}[j]), trig=({DOC}[j]))"]}


function("TokenizingIterator.fetch_data", T, "TokenizingIterator.fetch_data", props=["C09"],
         params={}, returns="None", fields=NEXT, modifies=["self.iterator", "self.buffer", "self.eos"], calls={"getattr": "arg:0", "encode": encode},
         locals={"texts": "List[Str]"}, axioms=["forall('Tok,Str', lambda t, s: len(tokenize(t, s)) >= 0, trig=(tokenize(t, s)))"],
         requires=["self.batch_size >= 1"] + stream("self.iterator.pos"),
         ensures=[SAME] + stream("self.iterator.pos") + GREW + ["implies(self.eos, old(self.eos) or self.iterator.pos == self.iterator.n)", "self.eos or self.iterator.pos > old(self.iterator.pos)"],
         cuts={k + 1: v for k, v in cuts(P0, f'old({B})').items()},
         loops={0: dict(index="a", inv=FETCHED + ["self.iterator.pos == " + P0 + " + a", "self.eos == old(self.eos)"]),
                1: dict(index="b", inv=docs("b", "0")),
                2: dict(index="c", inv=docs("len(texts)", "c"))},
         hints=[f"lem_shift(self.iterator, 'tokens', {P0}, {X}, 'flat_int', len({X}), {PS})"])

PADDED = "(self.yielded_samples == 1 and self.chunk_index == 0 and self.eos and len(self.buffer) < self.sequence_length + 1)"
STATE = ["self.batch_size >= 1 and self.sequence_length >= 1 and self._step_size == (self.sequence_length if self.overlap else self.sequence_length + 1)"] + stream("self.iterator.pos") + [
    "0 <= self.chunk_index and self.chunk_index <= len(self.buffer) and self.yielded_samples >= 0",
    f"self.chunk_index == self.yielded_samples * self._step_size or {PADDED}",
    "implies(self.eos, self.iterator.pos == self.iterator.n)"]
TOTAL = TOKS("self.iterator.n")
ENOUGH = f"({TOTAL} - self.chunk_index >= self.sequence_length + 1)"
PAD = f"(self.yielded_samples == 0 and {TOTAL} - self.chunk_index > 0 and self.at_least_one_sample)"
LEFT = "(len(self.buffer) - old(self.chunk_index))"
KEEP = [SAME] + GREW
function("TokenizingIterator.__next__", T, "TokenizingIterator.__next__", props=["C09"], returns="List[Int]",
         fields=NEXT, modifies=["self.iterator", "self.buffer", "self.eos", "self.chunk_index", "self.yielded_samples"],
         requires=STATE,
         ensures=STATE + KEEP + [
             "len(result) == self.sequence_length + 1 and self.yielded_samples == old(self.yielded_samples) + 1",
             f"implies({LEFT} >= self.sequence_length + 1, self.chunk_index == old(self.chunk_index) + self._step_size and all(result[i] == self.buffer[old(self.chunk_index) + i] for i in range(self.sequence_length + 1)))",
             f"implies({LEFT} < self.sequence_length + 1, old(self.yielded_samples) == 0 and self.at_least_one_sample and self.iterator.pos == self.iterator.n and {LEFT} > 0 and self.chunk_index == old(self.chunk_index))",
             f"implies({LEFT} < self.sequence_length + 1, all(result[i] == self.buffer[old(self.chunk_index) + i % {LEFT}] for i in range(self.sequence_length + 1)))"],
         raises={"StopIteration": f"not {ENOUGH} and not {PAD}"},
         on_raise={"StopIteration": STATE + ["self.eos"]},
         loops={0: dict(inv=STATE + KEEP + ["self.chunk_index == old(self.chunk_index) and self.yielded_samples == old(self.yielded_samples)"],
                        decreases="self.iterator.n - self.iterator.pos + (0 if self.eos else 1)")},
         hints=[f"lem_mono(self.iterator, 'tokens', self.iterator.pos, self.iterator.n, {PS})"])

# ---- the threaded iterator: buffer, eos, error and the source iterator are shared under self.lock.  `published` is a ghost field: the number
# of documents whose tokens are in the buffer whenever the lock is free.  The other thread may change what `havoc` lists whenever the lock is free.
SHARED = ["self.buffer", "self.eos", "self.error", "self.iterator", "self.published"]
MON_INV = stream("self.published") + ["implies(self.eos and self.error is None, self.published == self.iterator.n)"]
TF = dict(NEXT, published="Int", error="Opt[Err]")
STEP = ["self.batch_size >= 1 and self.sequence_length >= 1 and self._step_size == (self.sequence_length if self.overlap else self.sequence_length + 1)"]
MINE = [f"self.chunk_index == self.yielded_samples * self._step_size or (self.yielded_samples == 1 and self.chunk_index == 0 and self.eos and len(self.buffer) < self.sequence_length + 1)",
        "0 <= self.chunk_index and self.chunk_index <= len(self.buffer) and self.yielded_samples >= 0"]
RELY = ["sameseq(self.iterator, before_iterator)", "len(self.buffer) >= len(before_buffer) and implies(before_eos, self.eos and len(self.buffer) == len(before_buffer))"]
GUARANTEE = RELY + ["all(self.buffer[i] == before_buffer[i] for i in range(len(before_buffer)))"]


def wait(lib, E, node, st):
    E.monitor_release(E.c["monitor"], st, node.lineno)
    E.monitor_acquire(E.c["monitor"], st)
    return [(st, E.const(None))]


TOTAL_KNOWN = f"implies(self.eos and self.error is None, len(self.buffer) == {TOTAL})"
function("ThreadedTokenizingIterator.__next__", T, "ThreadedTokenizingIterator.__next__", props=["C09"], returns="List[Int]",
         fields=TF, modifies=SHARED + ["self.chunk_index", "self.yielded_samples"],
         monitor=dict(lock="self.lock", havoc=SHARED, snapshot=["self.iterator", "self.buffer", "self.eos"], inv=MON_INV, rely=RELY,
                      guarantee=["self.buffer == before_buffer and self.eos == before_eos"]),
         requires=STEP + MINE + MON_INV,
         ensures=STEP + MINE + MON_INV + ["sameseq(self.iterator, old(self.iterator))",
             "len(result) == self.sequence_length + 1 and self.yielded_samples == old(self.yielded_samples) + 1",
             f"implies({LEFT} >= self.sequence_length + 1, self.chunk_index == old(self.chunk_index) + self._step_size and all(result[i] == self.buffer[old(self.chunk_index) + i] for i in range(self.sequence_length + 1)))",
             f"implies({LEFT} < self.sequence_length + 1, old(self.yielded_samples) == 0 and self.at_least_one_sample and self.eos and self.error is None and {LEFT} > 0 and self.chunk_index == old(self.chunk_index))",
             f"implies({LEFT} < self.sequence_length + 1, all(result[i] == self.buffer[old(self.chunk_index) + i % {LEFT}] for i in range(self.sequence_length + 1)))"],
         raises={"StopIteration": f"not {ENOUGH} and not {PAD}", "error": "True"},
         on_raise={"StopIteration": STEP + MINE + MON_INV + ["self.eos and self.error is None"], "error": STEP + MINE + MON_INV + ["self.error is not None"]},
         calls={"self.condition.wait": wait},
         loops={0: dict(inv=STEP + MINE + MON_INV + ["sameseq(self.iterator, old(self.iterator))", "self.chunk_index == old(self.chunk_index) and self.yielded_samples == old(self.yielded_samples)"])},
         hints=[f"lem_mono(self.iterator, 'tokens', self.published, self.iterator.n, {PS})"])

P1 = "p0"
FETCHED1 = [x.replace(P0, P1) for x in FETCHED]
function("ThreadedTokenizingIterator.prefetch_loop", T, "ThreadedTokenizingIterator.prefetch_loop", props=["C09"],
         fields=TF, modifies=["self.iterator", "self.buffer", "self.eos", "self.published"], calls={"getattr": "arg:0", "encode": encode, "self.condition.notify_all": "skip"},
         locals={"texts": "List[Str]"}, axioms=["forall('Tok,Str', lambda t, s: len(tokenize(t, s)) >= 0, trig=(tokenize(t, s)))"],
         ghost={"p0": ("Int", "self.iterator.pos"), "b0": ("List[Int]", "self.buffer")},
         monitor=dict(lock="self.lock", havoc=[], snapshot=["self.iterator", "self.buffer", "self.eos"], inv=MON_INV, guarantee=GUARANTEE,
                      publish=[("self.published", "self.iterator.pos")], cuts=cuts("p0", "b0", "len(texts) > 0")),
         requires=["self.batch_size >= 1 and self.error is None and self.published == self.iterator.pos"] + MON_INV,
         ensures=["self.eos"] + MON_INV + [SAME],
         raises={"Exception": "True"}, on_raise={"Exception": ["self.error is None", SAME] + MON_INV},
         loops={0: dict(inv=["self.published == self.iterator.pos and self.error is None", SAME] + MON_INV, ghost_start=[("p0", "self.iterator.pos"), ("b0", "self.buffer")],
                        decreases="self.iterator.n - self.iterator.pos + (0 if self.eos else 1)"),
                1: dict(index="a", inv=FETCHED1 + ["implies(not local_eos, self.iterator.pos == " + P1 + " + a)", "implies(local_eos, self.iterator.pos == self.iterator.n)"]),
                2: dict(index="b", inv=docs("b", "0")),
                3: dict(index="c", inv=docs("len(texts)", "c"))},
         hints=[f"lem_shift(self.iterator, 'tokens', p0, {X}, 'flat_int', len({X}), {PS})"])

function("ThreadedTokenizingIterator._run_prefetch_loop", T, "ThreadedTokenizingIterator._run_prefetch_loop", props=["C09"],
         fields=TF, modifies=["self.iterator", "self.buffer", "self.eos", "self.published", "self.error"], calls={"self.condition.notify_all": "skip"},
         axioms=["forall('Tok,Str', lambda t, s: len(tokenize(t, s)) >= 0, trig=(tokenize(t, s)))"],
         monitor=dict(lock="self.lock", havoc=[], snapshot=["self.iterator", "self.buffer", "self.eos"], inv=MON_INV, guarantee=GUARANTEE),
         requires=["self.batch_size >= 1 and self.error is None and self.published == self.iterator.pos"] + MON_INV,
         ensures=["self.eos and (self.error is not None or self.published == self.iterator.n)", SAME] + MON_INV)
INIT = dict(params={"iterator": "Iter[Str]", "tokenizer": "Tok", "sequence_length": "Int", "batch_size": "Int", "at_least_one_sample": "Bool", "overlap": "Bool", "eos": "Bool", "bos": "Bool"},
            requires=["iterator.pos == 0 and iterator.n >= 0 and sequence_length >= 1 and batch_size >= 1"])
TAKEN = ["self.sequence_length == sequence_length and self.batch_size == batch_size and self.at_least_one_sample == at_least_one_sample and self.overlap == overlap and self.use_eos_token == eos and self.use_bos_token == bos",
         "sameseq(self.iterator, iterator) and self.tokenizer == tokenizer and self.yielded_samples == 0 and self.chunk_index == 0"]
function("TokenizingIterator.__init__", T, "TokenizingIterator.__init__", props=["C09"], fields=NEXT, **INIT, ensures=STATE + TAKEN)
function("ThreadedTokenizingIterator.__init__", T, "ThreadedTokenizingIterator.__init__", props=["C09"], fields=TF, **INIT, ghost={"start": ("Int", "0")},
         calls={"threading.Lock": "fresh:U_Lock", "threading.Condition": "fresh:U_Cond", "threading.Thread": "fresh:U_Thread", "self.background_thread.start": "skip"},
         ensures=STEP + MINE + [x.replace("self.published", "0") for x in MON_INV] + TAKEN + ["self.error is None"])
