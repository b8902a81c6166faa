#!/usr/bin/env python3
"""Rewrites the last section of DESIGN.md (planted bugs by property) from seeded/*/meta.json."""
import collections, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.OrderedDict()
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    by.setdefault(j["property"], []).append(os.path.basename(os.path.dirname(m)))
order = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
text = open(V + "/DESIGN.md").read()
head = text[:text.index("## Planted bugs")]
n = sum(map(len, by.values()))
out = """## Planted bugs

%d changes in `seeded/`, each written from the text of its property and the code, confirmed to compile, to pass the existing tests and to
fail its own demonstration only with the change. **Each is caught by the quick check of its property** (`run.py <property>` with the
patch applied exits 1 with that property's VIOLATION line); what each needs in order to show is in its `meta.json`.

| property | planted bugs, all caught by this property's check |
|---|---|
""" % n
for i in order:
    if i in by: out += "| %s | %s |\n" % (i, ", ".join(by[i]))
out += """
Missed at first, caught after the check was strengthened: roman-xd, signed-stale-special (P02); email-ipv6-bracket (P03);
hasher-short-write (H01); memfile-move-manage (S01); async-reader-last-chunk (C04); vappendf-append-offset (T03); ref-unique-ptr-move
(X01); set-read-truncated (S05); weight-stale (P06, removed later because it changed none of the original lines).

Attempts thrown away because they broke nothing observable, were caught by the existing tests, or changed no original line:
sys-object-close-twice (lines rewritten by a repair), ring-pop-notify-one, ring-quit-drops-tail, ring-quit-drops, read-array-partial-element, read-vector-reserve-all,
transfer-short-write-dropped, pool-pop-check-outside-lock, zlib-finish-one-block, zlib-refill-truncates, url-unescape-overread,
aggregate-shared-set, watchdog-notify-before-quit, watchdog-reset-in-callback, sha1-block-carry, strnicmp-length-first,
strtoint-pre-overflow, strtoint-sticky-sign, strcatftime-trailing, memfile-writestream-limit-gap, uuid-wide-fourth, uuid-trailing,
wav-cues-sorted-lookup, wav-cues-truncated-zero, minisign-comment-colon, sanitizing-count, css-uri-content-space,
html-attr-value-stale, html-unknown-case, html-entities-kept, ring-front-full, vswprintf-va-copy, wav-cues-order, html-end-links-outer-only, check11-control-ten, buffer-close-keeps-read, cached-file-open-keeps-block, langid-separator-kind, uuid-thirteenth-digit, timespec-rounds-up, strtoint16-negative-wrap, html-unknown-prefix-end (this one led to
the defect in which one unknown element's end tag ended another).
"""
open(V + "/DESIGN.md", "w").write(head + out)
