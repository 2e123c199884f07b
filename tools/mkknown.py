#!/usr/bin/env python3
"""Writes /verif/known-findings.json: repaired defects and open findings."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
H = {}
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        H[s[5:]] = h
FIX = [
 ("do not index the signer of a CMS object that has none", "C04", "a manifest or ROA whose CMS SignedData has no SignerInfo made the validator panic"),
 ("reject undecodable addresses in RFC 3779 extensions", "C04 C01", "a certificate with an IP address longer than its family panicked or was accepted with other addresses"),
 ("do not read past the end of truncated BER data", "C04", "truncated indefinite-length BER made the validator panic"),
 ("follow the whole chain of inherited resources", "C01 C16", "a certificate inheriting through two levels was compared with the wrong ancestor, accepting resources the chain does not hold or rejecting those it does"),
 ("do not dereference the missing issuer of a CRL", "C04", "a CRL whose issuer is unknown made the validator panic"),
 ("judge manifests at the time of the validation", "C20 C15", "manifest validity was compared with the wall clock instead of the validation time"),
 ("apply every revocation of a CRL", "C14", "only part of the entries of a CRL took effect, depending on the order in which objects were met"),
 ("separate issuer and serial number in the revocation table", "C03 C14", "issuer key id and serial were concatenated, so that one CA could revoke certificates of another"),
 ("do not dereference objects that disappeared from the cache", "C04 C17", "a file removed or unreadable between two reads of a validation made the validator panic"),
 ("return errors of local writes instead of exiting", "C04", "a failed write, full disk or missing permission while storing fetched objects ended the process"),
 ("refuse repository locations that cannot be used as one", "C07 C04", "caRepository values with '..', empty hosts or modules made rsync write outside the cache"),
 ("do not copy symbolic links from rsync servers", "C07", "rsync -a copied symbolic links, through which later RRDP data was written outside the cache"),
 ("compare the start of the location of RRDP files with the allowed host", "C07", "an RRDP document could write below another host's directory if the URI contained the allowed host anywhere"),
 ("fetch a repository over rsync if its RRDP URL belongs to another host", "C03 C10 C11", "a CA naming a victim's RRDP URL first bound it to its own host, so that the victim was never fetched"),
 ("keep track of all RRDP URLs and rsync modules that belong together", "C02 C05 C10 C11", "of several RRDP URLs or modules that belong together only the last was remembered: repositories were not fetched or no failover happened"),
 ("store root certificates fetched over rsync where they are looked for", "C11 C13", "a trust anchor certificate obtained over rsync was stored elsewhere than it was read"),
 ("fetch the repositories of authorities with an incomplete manifest", "C02 C06", "once the copy of a CA's repository was damaged the CA's repository was never fetched again"),
 ("read the RRDP state only once", "C05 C06", "the RRDP state file was read again each round, undoing the state of rounds whose save failed"),
 ("apply RRDP documents only if they are what was announced", "C05", "hashes, sessions and serials of snapshots and deltas were not compared with the notification"),
 ("fetch the snapshot if the serial of an RRDP repository went back", "C05", "after the serial of a repository went back nothing was fetched any more"),
 ("use root certificates only if they are valid", "C01 C11 C13", "expired or mismatching trust anchor certificates were used"),
 ("publish the results of a validation at once", "C04 C08 C09 C12 C18 C19", "list, resources, metadata and state were replaced one by one while being served: mixed documents, data races, readiness without data"),
 ("continue exploring if a known rsync module is referred to in another way", "C08 C10", "exploration was declared complete although a repository had not been tried"),
 ("do not let references to the objects of another authority get in their way", "C03 C14 C17 C19", "a hostile manifest listing another CA's files made those be validated against the wrong issuer and dropped"),
 ("fetch the snapshot again if the local copy of a repository is incomplete", "C02 C06", "an RRDP copy damaged by a crash was never repaired as long as deltas applied"),
 ("replace the output file at once", "C18", "a crash or full disk while writing destroyed the previous complete output file"),
 ("explore a repository where it is stored", "C20", "without manifests the URL was used as the directory"),
 ("return the error of an interrupted transfer of a repository", "C21", "a listing cut short was taken as complete"),
 ("compare the hash of files received from the API with the manifest", "C21", "hashes of objects received through the API were not checked"),
 ("submit every certificate chain before exiting", "C23", "the tool exited before all chains were submitted"),
 ("do not dereference files that cannot be read for the CT log", "C23", "an unreadable file made the tool panic"),
 ("refuse ROAs for AS numbers that do not exist", "C01", "an AS number above 2^32-1 in a ROA was published modulo 2^32"),
 ("limit the size of root certificates fetched over HTTP", "C04 C12", "an endless trust anchor certificate was read into memory without limit"),
 ("submit the root certificate of a chain only once", "C17 C23", "the chains of authorities directly below a trust anchor contained the root certificate twice"),
 ("do not submit the chains of a TAL again", "C23", "with several trust anchors the chains of the first ones were submitted again with each of the following"),
 ("apply the most specific directory mapping first", "C20", "with overlapping directory mappings the one used changed from run to run"),
 ("explore the rest of a directory after a file that cannot be read", "C20", "without manifests one unreadable file hid all files after it"),
 ("locate files found in a directory only once", "C20", "without manifests the paths of the files found were resolved twice"),
 ("report that the output could not be written", "C20", "the program ended successfully although its output was not or only partly written"),
 ("do not submit chains with a certificate missing", "C17 C23", "a chain from which a certificate could not be read was submitted without it"),
 ("compare the issuer of objects found without a manifest too", "C20 C21", "without manifests an object issued by another authority was validated from the directory of an authority that does not issue it"),
 ("compare the issuer of what a manifest found without a manifest lists", "C20 C21", "without manifests, what a manifest lying in the directory lists was validated although another authority issued it"),
 ("keep IPv4-mapped IPv6 prefixes apart in origin validation", "C22", "payloads and routes under ::ffff:0:0/96 were looked up as IPv4 prefixes with a length above 32: wrong states and payloads"),
 ("keep IPv4-mapped IPv6 addresses apart from IPv4 ones in certificates", "C01 C16", "a holder of ::ffff:0:0/96 held all IPv4 space, and ::/0 did not contain ::ffff:0:0/96"),
 ("take hosts and modules only from rsync URLs", "C07 C19", "http://hX.example/m as caRepository was fetched from rsync://X.example/m"),
 ("accept files of other kinds that are not encoded on a manifest", "C15 C02", "a manifest listing a file that is not DER (a text file, say) made its authority invalid although the file was present with the right hash"),
 ("API source accepts files of other kinds that are not encoded on a manifest", "C21", "the same through the resource API"),
 ("a damaged ROA or manifest does not hide an intact copy of it", "C20 C21", "without manifests, a damaged copy of a ROA met first (wrong content digest, say) kept the intact one out of the list"),
 ("the signature of a signed object is compared as a whole", "C01", "a signature made without the private key of an end-entity certificate with the public exponent 3 was accepted"),
]
fixed, left = [], dict(H)
for t, ps, what in FIX:
    h = left.pop(t, None)
    if h is None:
        c = [k for k in left if k.startswith(t)] or [k for k in left if t.startswith(k)]
        assert c, t
        h = left.pop(c[0])
    for p in ps.split():
        fixed.append("fixed: property=%s %s %s" % (p, h, what))
for t in left:
    print("not described:", t)
try:
    findings = json.load(open(V + "/known-findings.json"))["findings"]
except FileNotFoundError:
    findings = []
json.dump({"findings": findings, "fixed": fixed}, open(V + "/known-findings.json", "w"), indent=1)
