"""C09: token sequences are the contiguous windows of the tokenized stream."""
import os
import tempfile
import threading

from common import Group, Violation, check, main
import gen
import qr as Q


def setup():
    from rt import realenv
    realenv.activate()


class Tok:
    """a tokenizer: one id per character or per word, documents may be empty"""

    def __init__(self, kind, bos, eos):
        self.kind, self.bos_token_id, self.eos_token_id = kind, bos, eos
        self.docs = 0

    def enc(self, text):
        if self.kind == "chars":
            return [ord(ch) for ch in text]
        if self.kind == "words":
            return [1000 + int(x) for x in text.split()]
        return []

    def __call__(self, texts, **kw):
        self.docs += len(texts)
        return {"input_ids": [self.enc(t) for t in texts]}

    batch_encode_plus = __call__


class Boom(Exception):
    pass


def gen_iter(rng):
    kind = rng.choice(["chars", "words", "words"])
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20])
    texts = []
    ctr = 0
    big = rng.random() < 0.01        # long streams: thousands of tokens
    for _ in range(n * 3 if big else n):
        k = rng.choice([0, 1, 40, 100, 700]) if big else rng.choice([0, 1, 1, 2, 3, 7, 15])
        if kind == "words":
            texts.append(" ".join(str(ctr + i) for i in range(k)))
            ctr += k
        else:
            texts.append("".join(rng.choice("abcde \n") for _ in range(k)))
    return {"kind": kind, "texts": texts, "seq": rng.choice([1, 1, 2, 3, 4, 5, 8, 16, 50]), "bs": rng.choice([1, 1, 2, 3, 5, 100]), "one": rng.random() < 0.6,
            "overlap": rng.random() < 0.5, "eos": rng.random() < 0.5, "bos": rng.random() < 0.4, "ids": rng.choice([[1, 2], [0, 3], [5, 0], [None, 2], [1, None]]),
            "err": rng.choice([None] * 9 + [rng.randrange(0, 6)])}


def stream_of(c, tok):
    out = []
    for t in c["texts"]:
        out += ([tok.bos_token_id] if c["bos"] else []) + tok.enc(t) + ([tok.eos_token_id] if c["eos"] else [])
    return out


def expected(stream, seq, overlap):
    step = seq if overlap else seq + 1
    out, i = [], 0
    while i + seq + 1 <= len(stream):
        out.append(stream[i:i + seq + 1])
        i += step
    return out


def check_padded(w, stream, seq, c):
    check(len(w) == seq + 1, "windows:padded length", lambda: f"{w}; {c}")
    check(w[:len(stream)] == stream, "windows:padded start", lambda: f"{w} for {stream}; {c}")
    check(set(w) <= set(stream), "windows:padded content", lambda: f"{w} for {stream}; {c}")


def run_iter(c):
    from mixtera.utils import ThreadedTokenizingIterator, TokenizingIterator
    res = {}
    stream = None
    for cls in (TokenizingIterator, ThreadedTokenizingIterator):
        tok = Tok(c["kind"], *c["ids"])
        if (c["bos"] and tok.bos_token_id is None) or (c["eos"] and tok.eos_token_id is None):
            try:
                cls(iter(c["texts"]), tok, c["seq"], c["bs"], c["one"], c["overlap"], c["eos"], c["bos"])
            except RuntimeError:
                continue
            raise Violation("windows:missing special token accepted", f"{cls.__name__} {c}")
        stream = stream_of(c, tok)
        exp = expected(stream, c["seq"], c["overlap"])

        def src():
            for i, t in enumerate(c["texts"]):
                if c["err"] is not None and i == c["err"]:
                    raise Boom()
                yield t
            if c["err"] is not None and c["err"] >= len(c["texts"]):
                raise Boom()
        it = cls(src(), tok, c["seq"], c["bs"], c["one"], c["overlap"], c["eos"], c["bos"])
        got, err = [], False
        try:
            for w in it:
                got.append(list(w))
                if len(got) > len(exp) + 5:
                    break
        except Boom:
            err = True
        if c["err"] is not None:
            check(err, "windows:error of the stream lost", lambda: f"{cls.__name__} ended without the error; {c}")
            check(got == exp[:len(got)], "windows:wrong", lambda: f"{cls.__name__}: {got} for {stream}; {c}")
            continue
        for w in got:
            check(len(w) == c["seq"] + 1, "windows:length", lambda: f"{cls.__name__}: {w}; {c}")
        if not exp and stream and c["one"]:
            check(len(got) == 1, "windows:padded", lambda: f"{cls.__name__}: {got} for {stream}; {c}")
            check_padded(got[0], stream, c["seq"], c)
        else:
            check(got == exp, "windows:wrong", lambda: f"{cls.__name__}: {got} instead of {exp}; {c}")
        res[cls.__name__] = got
        for _ in range(2):     # the end stays the end
            try:
                w = next(it)
            except StopIteration:
                continue
            raise Violation("windows:after the end", f"{cls.__name__}: {w}; {c}")
        check(tok.docs == len(c["texts"]), "windows:documents", lambda: f"{cls.__name__} tokenized {tok.docs} of {len(c['texts'])}; {c}")
    if len(res) == 2:
        a, b = res.values()
        check(a == b, "windows:threaded differs", lambda: f"{a} / {b}; {c}")
    return {"nontrivial": bool(stream)}


TOKDIR = {}


def tokdir():
    """a real (fast) tokenizer of the transformers library, one id per byte-like word"""
    if TOKDIR.get("pid") != os.getpid():
        from tokenizers import Tokenizer, models, pre_tokenizers
        from transformers import PreTrainedTokenizerFast
        vocab = {"[UNK]": 0, "[BOS]": 1, "[EOS]": 2, "F": 3, ":": 4}
        for i in range(200):
            vocab[str(i)] = 5 + i
        t = Tokenizer(models.WordLevel(vocab, unk_token="[UNK]"))
        t.pre_tokenizer = pre_tokenizers.Sequence([pre_tokenizers.Whitespace(), pre_tokenizers.Punctuation(), pre_tokenizers.Digits()])
        d = tempfile.mkdtemp(prefix="c09-")
        PreTrainedTokenizerFast(tokenizer_object=t, unk_token="[UNK]", bos_token="[BOS]", eos_token="[EOS]").save_pretrained(d)
        TOKDIR.update(pid=os.getpid(), dir=d, tok=PreTrainedTokenizerFast.from_pretrained(d))
    return TOKDIR["dir"], TOKDIR["tok"]


def gen_chunk(rng):
    ix = Q.rand_index(rng, maxrows=rng.choice([10, 60]))
    m = Q.rand_mixture(rng, ix)
    return {"index": ix, "mix": m, "seq": rng.choice([1, 2, 3, 5, 9, 30]), "bs": rng.choice([1, 2, 5, 50]), "one": rng.random() < 0.6, "overlap": rng.random() < 0.5,
            "eos": rng.random() < 0.5, "bos": rng.random() < 0.3, "thread": rng.random() < 0.5, "prefetch": rng.random() < 0.5, "skip": rng.choice([0, 0, 1, 3])}


def run_chunk(c):
    import copy
    d, tok = tokdir()
    qr = Q.real_qr(Q.build_index(c["index"]), Q.mk_mixture(c["mix"]), meta=Q.fake_meta(c["index"]))
    try:
        ch = next(qr)
    except StopIteration:
        return {"nontrivial": False}
    ids = {v: gen.kid(k) for k, v in ch._key_id_map.items()}

    def read(**kw):
        cc = copy.copy(ch)
        skip = kw.pop("skip", 0)
        cc.configure_result_streaming(None, Q.stream_args(**kw))
        cc._samples_to_skip = skip
        return list(cc)
    # the order of the documents within a component is the one of plain reading
    docs = {}
    for _, kid, s in read(chunk_reading_mixture_type="simple"):
        docs.setdefault(kid, []).append(s)

    def toks(**kw):
        a = dict(chunk_reading_mixture_type="token", chunk_reading_tokenizer=d, chunk_reading_sequence_len=c["seq"], chunk_reading_tokenization_bs=c["bs"],
                 chunk_reading_token_at_least_one_sample=c["one"], chunk_reading_token_overlapping=c["overlap"], chunk_reading_eos=c["eos"], chunk_reading_bos=c["bos"],
                 chunk_reading_token_separate_thread=c["thread"], chunk_reading_prefetch_first_sample=c["prefetch"])
        a.update(kw)
        return [(i, k, list(s)) for i, k, s in read(**a)]
    got = toks()
    check([g[0] for g in got] == list(range(len(got))), "chunk:numbering", f"{c}")
    per = {}
    for _, k, s in got:
        per.setdefault(k, []).append(s)
    for k, ws in per.items():
        stream = []
        for t in docs[k]:
            stream += ([1] if c["bos"] else []) + list(tok(t)["input_ids"]) + ([2] if c["eos"] else [])
        exp = expected(stream, c["seq"], c["overlap"])
        if not exp and stream and c["one"]:
            check(len(ws) <= 1, "chunk:padded", lambda: f"{ws}; {c}")
            check_padded(ws[0], stream, c["seq"], c)
        else:
            check(ws == exp[:len(ws)], "chunk:windows", lambda: f"component {ids[k]}: {ws} instead of {exp}; {c}")
        if len(docs) == 1 and (exp or (stream and c["one"])):   # a single component: nothing may be left out before the first end
            check(len(ws) == max(len(exp), 1), "chunk:dropped", lambda: f"{len(ws)} of {len(exp)} windows; {c}")
    other = toks(chunk_reading_token_separate_thread=not c["thread"], chunk_reading_prefetch_first_sample=not c["prefetch"])
    check(other == got, "chunk:threading changes the sequence", lambda: f"{c}")
    if c["skip"]:
        check(toks(skip=c["skip"]) == got[c["skip"]:], "chunk:skip", lambda: f"{c}")
    return {"nontrivial": len(got) > 1}


GROUPS = [Group("windows", gen_iter, run_iter, weight=3, timeout=12), Group("chunk", gen_chunk, run_chunk, timeout=60)]
if __name__ == "__main__":
    main("C09", GROUPS, setup, "random document streams, tokenizers, sequence lengths, batch sizes and options, threaded and unthreaded; whole chunks with a tokenizer of the transformers library; non-trivial: the stream has tokens / several sequences")
