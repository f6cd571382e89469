"""writes known_findings.json: fixed defects (by commit subject) and known ones"""
import json, subprocess
FIXED = [
 ("C06", "encode strings before hashing", "hashing any component key raised TypeError (xxhash of str lists), so no mixture with keys could be used"),
 ("C11", "fetch query results with to_arrow_table", "every query failed with the installed DuckDB (fetch_arrow_table is gone)"),
 ("C01", "do not hang in arbitrary chunk generation", "an even number of components, one exhausted: next chunk without mixture never returned and remaining data was never handed out"),
 ("C16", "adopt a new mixture after a chunk could not be generated", "after a failed attempt the new mixture was ignored for the retried chunk"),
 ("C05", "only count generated chunks as returns", "a checkpoint after a failed attempt could not be restored (one replayed chunk too many)"),
 ("C02", "redistribute evenly in best effort", "division by zero if only components with zero rows are left in best effort"),
 ("C08", "do not add components with zero rows to a chunk", "chunks held empty ranges / components with no rows; reading them failed or hung"),
 ("C08", "do not hang in best-effort windows", "reading in windows hung if only components without a share of the window were left"),
 ("C07", "infer mixtures in the order of the keys", "an inferred mixture depended on the order of the index (ties of the largest remainder)"),
 ("C11", "put samples with the same values in a different order", "samples of list-valued properties with differently ordered values were lost from the index"),
 ("C11", "do not split property values at", "values with ',' or ';' were split into several values by the chunker extension"),
 ("C05", "keep the requested number of workers", "a restored 0-worker job could not be checkpointed again"),
 ("C05", "allow another checkpoint after one has been refused", "after a refused checkpoint every further one was refused"),
 ("C05", "restore the current mixture and the component ids", "a restored job used the mixture of the last chunk instead of the current one, and ids of the cached query"),
 ("C05", "log changes of strictness and of the size", "two mixtures with equal rows but different strictness / arbitrary chunk sizes were not told apart when replaying"),
 ("C05", "do not fail a checkpoint of workers that have not asked", "a checkpoint right after a restore failed with KeyError"),
 ("C09", "tokenize with transformers versions without batch_encode_plus", "tokenizing failed with the installed transformers (batch_encode_plus is gone)"),
 ("C09", "hand errors of the tokenization thread on", "an error while tokenizing in the background thread left the consumer waiting forever"),
 ("C20", "hand errors and None items on when prefetching", "an error while fetching the first item ended the stream silently; a None item was dropped"),
 ("C08", "do not end a reader stream at a sample with the text END_OF_STREAM", "reading in parallel lost all samples of a reader after a sample with the text END_OF_STREAM"),
 ("C08", "must not end normally when a reader process died", "reading in parallel ended normally, without the remaining samples, if a reader process had died (for example of an error of the parsing function)"),
 ("C13", "raise an error if the connection ends between the size", "a connection that ended between the header and the content of a message was reported as absence"),
 ("C21", "require the class label of ImageNet", "an ImageNet sample without a class label was recorded with the label 'None'"),
 ("C14", "remove the remains of a dataset that could not be registered", "a failed registration (wrong path, unknown parser, invalid value) left a dataset without or with partial metadata whose name could not be registered again"),
 ("C11", "select everything if one of the chained selections", "select(None).select(cond) only selected the samples matching cond"),
 ("C12", "write the metadata of a cache entry after its results", "an entry whose writing was interrupted was considered complete and made every later execution of the query fail"),
 ("C12", "do not reuse the directory of a removed cache entry", "a job that was started from a cache entry later checkpointed the data of another entry that took the same directory"),
 ("C05", "checkpoint jobs whose query is not or no longer cached", "the first checkpoint failed if the query was not cached or its entry had been removed"),
    ("C13", "report feedback for unknown jobs as failed", "feedback for a job the server does not know was acknowledged as processed"),
    ("C13", "do not report the status of an earlier registration", "executing a job id again reported the success of the earlier registration"),
    ("C14", "refuse a property that is stored with another multiplicity", "a list of values was stored as its text form if another dataset had registered the property as single-valued"),
    ("C15", "hash component keys with numeric values", "keys with numeric values could not be hashed, and hashing reordered the values of the key"),
    ("C16", "inform all mixtures of a schedule about the index", "an inferring mixture that is not the first entry of a schedule stayed empty"),
    ("C03", "recompute the rows of mixtures whose chunk size is adjusted", "the rows of a static or hierarchical mixture inside a schedule or dynamic mixture did not add up to the adjusted chunk size"),
    ("C17", "accept reports of fewer components in ADO", "ADO failed on reports of fewer components than before (or than the initial mixture) and on new components after scaling laws were fitted"),
    ("C18", "calculate properties of compressed files", "calculating a property of a dataset with compressed jsonl files failed with a decoding error"),
    ("C21", "refuse parser properties with the name of the sample id", "a parser property named sample_id silently replaced the row number of every record"),
]
KNOWN = [
 ("C05", "resume:after failed attempt", "if a chunk could not be generated before the checkpoint (and the mixture or the remaining data still allow a later one), the failed attempts and the data they used up are not replayed, so the restored job diverges from the uninterrupted one or cannot be restored"),
]
try:
    from findings_more import FIXED2, KNOWN2
    FIXED += FIXED2; KNOWN += KNOWN2
except ImportError:
    pass
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out, used = [], set()
for pid, sub, what in FIXED:
    m = [l for l in log if sub in l]
    assert len(m) == 1, (sub, m)
    h = m[0].split()[0]
    used.add(h)
    out.append({"property": pid, "status": "fixed", "commit": h, "what": what, "line": f"fixed: property={pid} {h} {what}"})
for l in log:
    if " fix:" in l and l.split()[0] not in used:
        raise SystemExit("unlisted fix: " + l)
for pid, sig, what in KNOWN:
    out.append({"property": pid, "status": "known", "sig": sig, "what": what})
json.dump({"findings": out}, open("/verif/known_findings.json", "w"), indent=1)
print(len(out))
