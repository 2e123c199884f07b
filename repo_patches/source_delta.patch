From 207c2b1a755690193e70760e99ec0f58f0e2a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 01/50] fix: do not index the signer of a CMS object that has
 none

A ROA or manifest with an empty signerInfos set made GetSigningTime and
Validate panic, which terminates the validator, when strict CMS decoding
is off (as it is by default in octorpki).
---
 validator/lib/cms.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index a1a87a9..8cb2f1e 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -330,6 +330,9 @@ func (cms *CMS) CheckSignaturesMatch() (bool, error) {
 
 // Won't validate if signedattributes is empty
 func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return errors.New("CMS has no signer")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 
 	var messageDigest []byte
@@ -417,6 +420,9 @@ func (cms *CMS) GetRPKICertificate() (*RPKICertificate, error) {
 
 func (cms *CMS) GetSigningTime() (time.Time, error) {
 	var signingTime time.Time
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return signingTime, errors.New("CMS has no signer")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 	for _, sAttr := range signedAttributes {
 		if sAttr.AttrType.Equal(SigningTime) && len(sAttr.AttrValue) > 0 {
-- 
2.43.0


From 7ced7fba948e396c4b74bebca568c94a2a9b6d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 02/50] fix: reject undecodable addresses in RFC 3779
 extensions

DecodeIPAddressBlock dropped the error of DecodeIP and DecodeIPMinMax, so
a certificate with an unknown address family carried a nil network and
the validator panicked as soon as it compared it. A prefix longer than
its address yielded a network without mask, which compares equal to
another such network; a ROA entry of that kind was looked up in the
certificate with a nil range.
---
 validator/lib/cert.go | 16 ++++++++++++++--
 validator/lib/roa.go  |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index fec9fd5..7a1b8cd 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -252,6 +252,9 @@ func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, fmt.Errorf("Error converting ip address: prefix of %d bits is longer than the address", addr.BitLength)
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		mask := net.CIDRMask(addr.BitLength, size*8)
@@ -328,7 +331,10 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					a, err := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPNet{
 						IPNet: a,
 					})
@@ -344,8 +350,14 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					a, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					if err != nil {
+						return ipaddresses, err
+					}
 					b, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Max, true)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPAddressRange{
 						Min: a,
 						Max: b,
diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index 2952d3b..e614a25 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -198,6 +198,7 @@ func ValidateIPRoaCertificateList(entries []*ROAEntry, cert *RPKICertificate) ([
 		err, min, max := GetRangeIP(entry.IPNet)
 		if err != nil {
 			invalids = append(invalids, entry)
+			continue
 		}
 		valid, checkParent := cert.IsIPRangeInCertificate(min, max)
 		if valid {
-- 
2.43.0


From ae656f19abc436297e8e465c55a0fecb1a76abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 03/50] fix: do not read past the end of truncated BER data

readObject indexed beyond its input for a truncated tag, length or
indefinite-length object and recursed once per nesting level without any
bound, so a malformed file or manifest terminated the validator.
---
 validator/lib/ber.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 32c81b5..510b08a 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -64,7 +64,7 @@ func BER2DER(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -135,7 +135,17 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+// maxBERDepth bounds the nesting of constructed objects: they are read
+// recursively and the input is not trusted.
+const maxBERDepth = 256
+
+func readObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
+	if depth > maxBERDepth {
+		return nil, 0, errors.New("ber2der: BER objects are nested too deeply")
+	}
+	if offset >= len(ber) {
+		return nil, 0, errors.New("ber2der: BER object is truncated")
+	}
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
 	tagStart := offset
 	b := ber[offset]
@@ -143,10 +153,13 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if offset >= len(ber) {
+			return nil, 0, errors.New("ber2der: BER tag is truncated")
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -174,6 +187,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if numberOfBytes > len(ber)-offset {
+			return nil, 0, errors.New("ber2der: BER tag length is truncated")
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -215,7 +231,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset)
+			subObj, offset, err = readObject(ber, offset, depth+1)
 			if err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From 7ee84e650559d2ddfd12fdfbdf2b103d79cd7638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 04/50] fix: follow the whole chain of inherited resources

The loops over the ancestors of a certificate looked up the same
grandparent again and again, and resources which no ancestor settled were
accepted: below two certificates that inherit, a certificate could claim
any address or AS number.
---
 validator/pki/pki.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 53ba3df..b5410ef 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -499,14 +499,15 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	// Check IPs
 	validIPs, invalidIPs, checkParent := cert.ValidateIPCertificate(parentCert)
 	chain := parent.Parent
+	chainCert := parentCert
 	for chain != nil && len(checkParent) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
+		key := chainCert.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			//return errors.New(fmt.Sprintf("One of the parents (%x) of %x is not valid", key, ski))
 			return NewCertificateErrorParent(cert, parentCert, errors.New(fmt.Sprintf("ancestor %x is missing", key)))
 		}
-		chainCert, ok := upperCert.Resource.(*librpki.RPKICertificate)
+		chainCert, ok = upperCert.Resource.(*librpki.RPKICertificate)
 		if !ok {
 			//return errors.New(fmt.Sprintf("One of the parents (%x) of %x is not a RPKI Certificate", key, ski))
 			return NewCertificateErrorParent(cert, parentCert, errors.New(fmt.Sprintf("ancestor %x is not a rpki certificate", key)))
@@ -517,17 +518,20 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		checkParent = checkParentTmp
 		chain = chain.Parent
 	}
+	// No ancestor holds what is still inherited
+	invalidIPs = append(invalidIPs, checkParent...)
 
 	// Check ASNs
 	validASNs, invalidASNs, checkParentASN := cert.ValidateASNCertificate(parentCert)
 	chain = parent.Parent
+	chainCert = parentCert
 	for chain != nil && len(checkParentASN) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
+		key := chainCert.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			return NewCertificateErrorParent(cert, parentCert, errors.New(fmt.Sprintf("ancestor %x is not valid", key)))
 		}
-		chainCert, ok := upperCert.Resource.(*librpki.RPKICertificate)
+		chainCert, ok = upperCert.Resource.(*librpki.RPKICertificate)
 		if !ok {
 			return NewCertificateErrorParent(cert, parentCert, errors.New(fmt.Sprintf("ancestor %x is not a rpki certificate", key)))
 		}
@@ -537,6 +541,7 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		checkParentASN = checkParentTmp
 		chain = chain.Parent
 	}
+	invalidASNs = append(invalidASNs, checkParentASN...)
 
 	if len(invalidIPs) > 0 || len(invalidASNs) > 0 {
 		//return errors.New(fmt.Sprintf("%x contains invalid ASNs: %v", ski, invalidsASN))
-- 
2.43.0


From 63239e4ab1f536a1f609aae138d5d731c2487f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 05/50] fix: do not dereference the missing issuer of a CRL

A CRL whose authority key is unknown made AddResource panic, which
terminates the validator.
---
 validator/pki/pki.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index b5410ef..7a2981f 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -356,12 +356,15 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 			return false, nil, nil, err
 		}
 		valid, res, err := v.AddCRL(crl)
-		if pkifile.Parent.Parent.Path != res.Parent.File.Path {
-			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent %s", pkifile.Path, pkifile.Parent.Parent.Path)
-		}
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
 		}
+		if res.Parent == nil || res.Parent.File == nil {
+			return false, nil, nil, fmt.Errorf("CRL %s was issued by an unknown certificate", pkifile.Path)
+		}
+		if pkifile.Parent == nil || pkifile.Parent.Parent == nil || pkifile.Parent.Parent.Path != res.Parent.File.Path {
+			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent %s", pkifile.Path, res.Parent.File.Path)
+		}
 		res.File = pkifile
 
 		v.ObjectsPath[pkifile.Path] = res
-- 
2.43.0


From aee9f9098545bab1bd922d2292a57c5fda84b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 06/50] fix: judge manifests at the time of the validation

Explore compared the manifest's validity with the clock at the moment it
reached each file, while certificates are judged at Validator.Time: one
validation could accept part of what a manifest lists and reject the rest.
---
 validator/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 7a2981f..bf7c6cd 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -879,7 +879,7 @@ func (sm *SimpleManager) Explore(notMFT bool, addInvalidChilds bool) int {
 					if ok && res != nil && res.Resource != nil {
 						cert, ok := res.Resource.(*librpki.RPKIManifest)
 						if ok {
-							if time.Now().After(cert.Content.NextUpdate) || time.Now().Before(cert.Content.ThisUpdate) {
+							if sm.Validator.Time.After(cert.Content.NextUpdate) || sm.Validator.Time.Before(cert.Content.ThisUpdate) {
 								sm.InvalidateManifestParent(file, nil)
 							}
 						} else {
-- 
2.43.0


From 8116f5ee0f4912ad1bc025e957d46f0541af143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 07/50] fix: apply every revocation of a CRL

A CRL that revokes the certificate its issuer's manifest was signed with
invalidated only that certificate and not what the manifest lists, and of
several certificates with one serial number only the last one seen was
invalidated. Invalidated manifests also stayed in ValidManifest.
---
 validator/pki/pki.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index bf7c6cd..0b339f1 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -392,6 +392,7 @@ func (v *Validator) InvalidateObject(keyid []byte) {
 		delete(v.ValidObjects, ski)
 		delete(v.ValidROA, ski)
 		delete(v.ValidCRL, ski)
+		delete(v.ValidManifest, ski)
 		invalidated[ski] = true
 
 		if hasCert {
@@ -677,16 +678,18 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 		} else {
 			v.ValidCRL[string(aki)] = res
 			for _, revoked := range crl.TBSCertList.RevokedCertificates {
-				key := string(aki) + revoked.SerialNumber.String()
-				child, found := v.CertsSerial[key]
-				if found {
-					childConv := child.Resource.(*librpki.RPKICertificate)
-					if childConv.Certificate.SerialNumber.Cmp(revoked.SerialNumber) == 0 {
-						v.InvalidateObject(childConv.Certificate.SubjectKeyId)
-					}
+				v.Revoked[string(aki)+revoked.SerialNumber.String()] = true
+			}
+			for _, child := range parent.Childs {
+				childConv, ok := child.Resource.(*librpki.RPKICertificate)
+				if !ok || !v.Revoked[string(aki)+childConv.Certificate.SerialNumber.String()] {
+					continue
+				}
+				v.InvalidateObject(childConv.Certificate.SubjectKeyId)
+				if child.Type == TYPE_MFTCER {
+					// Nothing vouches for the objects of the authority anymore
+					v.InvalidateObject(aki)
 				}
-
-				v.Revoked[key] = true
 			}
 			parent.Childs = append(parent.Childs, res)
 		}
-- 
2.43.0


From bf0335ad2f2a18adc539edb1128104d32c98e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 08/50] fix: separate issuer and serial number in the
 revocation table

Revocations were keyed by the plain concatenation of the issuer's key
identifier and the serial number. An authority whose key identifier is
another's followed by digits could revoke certificates of the other.
---
 validator/pki/pki.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 0b339f1..5f350dd 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -5,8 +5,10 @@ import (
 	"crypto/x509"
 	"crypto/x509/pkix"
 	"encoding/asn1"
+	"encoding/hex"
 	"errors"
 	"fmt"
+	"math/big"
 	"strings"
 	"time"
 
@@ -456,7 +458,7 @@ func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []
 	if hasParent && parent != nil && valid {
 		parent.Childs = append(parent.Childs, res)
 
-		v.CertsSerial[aki+cert.Certificate.SerialNumber.String()] = res
+		v.CertsSerial[serialKey([]byte(aki), cert.Certificate.SerialNumber)] = res
 	}
 
 	if valid {
@@ -495,7 +497,7 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	}
 
 	// Check presence in revocation lists
-	_, revoked := v.Revoked[string(aki)+cert.Certificate.SerialNumber.String()]
+	_, revoked := v.Revoked[serialKey(aki, cert.Certificate.SerialNumber)]
 	if revoked {
 		return NewCertificateErrorRevocation(cert)
 	}
@@ -642,6 +644,12 @@ func (v *Validator) AddManifest(pkifile *PKIFile, mft *librpki.RPKIManifest) (bo
 	return valid, pathCert, res_mft, err
 }
 
+// serialKey identifies a certificate by its issuer's key and its serial number.
+// Key identifiers have any length their issuer likes, hence the separator.
+func serialKey(aki []byte, serial *big.Int) string {
+	return hex.EncodeToString(aki) + ":" + serial.String()
+}
+
 func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 	var aki []byte
 	for _, ext := range crl.TBSCertList.Extensions {
@@ -678,11 +686,11 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 		} else {
 			v.ValidCRL[string(aki)] = res
 			for _, revoked := range crl.TBSCertList.RevokedCertificates {
-				v.Revoked[string(aki)+revoked.SerialNumber.String()] = true
+				v.Revoked[serialKey(aki, revoked.SerialNumber)] = true
 			}
 			for _, child := range parent.Childs {
 				childConv, ok := child.Resource.(*librpki.RPKICertificate)
-				if !ok || !v.Revoked[string(aki)+childConv.Certificate.SerialNumber.String()] {
+				if !ok || !v.Revoked[serialKey(aki, childConv.Certificate.SerialNumber)] {
 					continue
 				}
 				v.InvalidateObject(childConv.Certificate.SubjectKeyId)
-- 
2.43.0


From 32096200671e7d55c7bddfe5e0f5387e7a4f4c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 09/50] fix: do not dereference objects that disappeared from
 the cache

The extraction of the list and the submission to Certificate Transparency
read the files again after the validation: a file that is gone by then is
returned as nil without an error. Chains whose last issuer is not a valid
certificate ended in a nil entry as well.
---
 cmd/octorpki/ct.go       | 15 ++++++++++-----
 cmd/octorpki/octorpki.go |  8 ++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/cmd/octorpki/ct.go b/cmd/octorpki/ct.go
index e2c19cd..e30d48c 100644
--- a/cmd/octorpki/ct.go
+++ b/cmd/octorpki/ct.go
@@ -32,6 +32,7 @@ func SingleSendCertificateTransparency(httpclient *http.Client, path string, msg
 
 	resp, err := httpclient.Post(fmt.Sprintf("%v/ct/v1/add-chain", path), "application/json", buf)
 	if err == nil {
+		defer resp.Body.Close()
 		respStr, _ := io.ReadAll(resp.Body)
 		log.Debugf("Sent %v certs %v %v %v", len(msg.Chain), path, string(respStr), err)
 	}
@@ -78,6 +79,15 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 		for _, cert := range certs {
 			var dataBytes []byte
 			data, err := s.Fetcher.GetFile(cert)
+			if err != nil {
+				log.Error(err)
+				continue
+			}
+			if data == nil {
+				log.Errorf("%v is not available anymore", cert.Path)
+				continue
+			}
+
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
@@ -89,11 +99,6 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 				dataBytes = data.Data
 			}
 
-			if err != nil {
-				log.Error(err)
-				continue
-			}
-
 			chain = append(chain, dataBytes)
 		}
 
diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index a4b2d6b..1256a0f 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -800,7 +800,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 				if obj.File != nil {
 					path = obj.File.ComputePath()
 					resData, err := s.Fetcher.GetFileConv(obj.File, false)
-					if err == nil {
+					if err == nil && resData != nil {
 						hashBytes := sha256.Sum256(resData.Data)
 						hash = hex.EncodeToString(hashBytes[:])
 					}
@@ -888,7 +888,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			if obj.File != nil {
 				path = obj.File.ComputePath()
 				resData, err := s.Fetcher.GetFileConv(obj.File, false)
-				if err == nil {
+				if err == nil && resData != nil {
 					hashBytes := sha256.Sum256(resData.Data)
 					hash = hex.EncodeToString(hashBytes[:])
 				}
@@ -953,7 +953,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			if obj.File != nil {
 				path = obj.File.ComputePath()
 				resData, err := s.Fetcher.GetFileConv(obj.File, false)
-				if err == nil {
+				if err == nil && resData != nil {
 					hashBytes := sha256.Sum256(resData.Data)
 					hash = hex.EncodeToString(hashBytes[:])
 				}
@@ -1168,7 +1168,7 @@ func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile
 			skiDone[curAki] = true
 
 			curPath = skiToPath[curAki]
-			if curAki != "" {
+			if curPath != nil {
 				curPathCT = append(curPathCT, curPath)
 			}
 			curAki = skiToAki[curAki]
-- 
2.43.0


From d9929f587bd8366b9e496c8f9c8e519a6bdc87d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 10/50] fix: return errors of local writes instead of exiting

A directory that cannot be created, or a file location that is not an
rsync URL (both can be triggered by what a repository publishes or by a
full disk), terminated the process. The check for parent directories now
also precedes the creation of directories.
---
 cmd/octorpki/octorpki.go | 45 ++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 1256a0f..abc586e 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -324,9 +324,10 @@ func ExtractRsyncDomain(rsyncURL string) (string, error) {
 }
 
 func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
-	fPath := mustExtractFoldersPathFromRsyncURL(rsyncURL)
-	mustMkdirAll(fPath)
-	filePath := mustExtractFilePathFromRsyncURL(rsyncURL)
+	filePath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
+	if err != nil {
+		return fmt.Errorf("Unable to extract file path from rsync url: %v", err)
+	}
 
 	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
 	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") {
@@ -334,19 +335,17 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 	}
 
 	fp := filepath.Join(*Basepath, filePath)
-	err := ioutil.WriteFile(fp, data, 0600)
+	err = os.MkdirAll(filepath.Dir(fp), os.ModePerm)
 	if err != nil {
-		return fmt.Errorf("Unable to write file %q: %v", fp, err)
+		return fmt.Errorf("Failed to create directories: %v", err)
 	}
 
-	return nil
-}
-
-func mustMkdirAll(fPath string) {
-	err := os.MkdirAll(filepath.Join(*Basepath, fPath), os.ModePerm)
+	err = ioutil.WriteFile(fp, data, 0600)
 	if err != nil {
-		log.Fatalf("Failed to create directories: %v", err)
+		return fmt.Errorf("Unable to write file %q: %v", fp, err)
 	}
+
+	return nil
 }
 
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
@@ -529,24 +528,6 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	MetricOperationTime.With(prometheus.Labels{"type": "rsync"}).Observe(float64(t2.Sub(t1).Seconds()))
 }
 
-func mustExtractFoldersPathFromRsyncURL(rsyncURL string) string {
-	downloadPath, err := syncpki.ExtractFoldersPathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Failed to extract folder path from rsync URL: %v", err)
-	}
-
-	return downloadPath
-}
-
-func mustExtractFilePathFromRsyncURL(rsyncURL string) string {
-	fPath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Unable to extract file path from rsync url: %v", err)
-	}
-
-	return fPath
-}
-
 func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan := s.tracer.StartSpan("sync", opentracing.ChildOf(span.Context()))
 	defer rSpan.Finish()
@@ -554,7 +535,11 @@ func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan.SetTag("type", "rsync")
 
 	log.Infof("Rsync sync %v", uri)
-	downloadPath := mustExtractFilePathFromRsyncURL(uri)
+	downloadPath, err := syncpki.ExtractFilePathFromRsyncURL(uri)
+	if err != nil {
+		s.rsyncError(uri, uri, err, rSpan)
+		return
+	}
 
 	path := filepath.Join(*Basepath, downloadPath)
 	ctxRsync, cancelRsync := context.WithTimeout(context.Background(), *RsyncTimeout)
-- 
2.43.0


From adbd560fe6523820a55d14fc4490a76e755898f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 11/50] fix: refuse repository locations that cannot be used as
 one

The host and the module of a repository become directories of the cache
(an empty, '.' or '..' element designates another directory) and labels
of metrics (which panic on invalid UTF-8).
---
 cmd/octorpki/octorpki.go | 7 ++++++-
 sync/lib/utils.go        | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index abc586e..884a97c 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -22,6 +22,7 @@ import (
 	"sync"
 	"sync/atomic"
 	"time"
+	"unicode/utf8"
 
 	"github.com/cloudflare/cfrpki/api/schemas"
 	"github.com/cloudflare/cfrpki/validator/pki"
@@ -1072,6 +1073,10 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 			cer := pkiResource.Resource.(*librpki.RPKICertificate)
 			rsyncGeneralName := cer.GetRsyncGeneralName()
 			rrdpGeneralName := cer.GetRRDPGeneralName()
+			if !utf8.ValidString(rrdpGeneralName) {
+				log.Errorf("Could not add cert rrdp %q: not a valid string", rrdpGeneralName)
+				rrdpGeneralName = ""
+			}
 
 			gnExtracted, gnExtractedDomain, err := syncpki.ExtractRsyncDomainModule(rsyncGeneralName)
 			if err != nil {
@@ -1079,7 +1084,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 				continue
 			}
 
-			if cer.HasRRDP() {
+			if rrdpGeneralName != "" {
 				prev, ok := s.getRRDPDomain(rrdpGeneralName)
 				if ok && prev != gnExtractedDomain {
 					log.Errorf("rrdp %s tries to override %s with %s", rrdpGeneralName, prev, gnExtractedDomain)
diff --git a/sync/lib/utils.go b/sync/lib/utils.go
index dfb7ca2..b488107 100644
--- a/sync/lib/utils.go
+++ b/sync/lib/utils.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 type Logger interface {
@@ -26,6 +27,11 @@ func ExtractRsyncDomainModule(rsync string) (string, string, error) {
 		if len(rsyncDomain) < 2 {
 			return "", "", errors.New("rsync url does not contain module")
 		}
+		for _, part := range rsyncDomain[:2] {
+			if part == "" || part == "." || part == ".." || !utf8.ValidString(part) {
+				return "", "", fmt.Errorf("rsync url contains an illegal host or module: %q", part)
+			}
+		}
 		return fmt.Sprintf("rsync://%s/%s", rsyncDomain[0], rsyncDomain[1]), fmt.Sprintf("rsync://%s/", rsyncDomain[0]), nil
 	} else {
 		return "", "", errors.New("Wrong size")
-- 
2.43.0


From 0e0e67fbb2d5968eafda7a6349bc83ccd32df6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 12/50] fix: do not copy symbolic links from rsync servers

A link copied into the cache lets later transfers of the same server
read or write anywhere in the file system (-l without --safe-links).
---
 sync/lib/rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index 030e595..a02de14 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -69,7 +69,7 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 		return nil, err
 	}
 
-	cmd := exec.CommandContext(ctx, bin, "-vrlt", uri, dirPath)
+	cmd := exec.CommandContext(ctx, bin, "-vrt", uri, dirPath)
 	log.Debugf("Command ran: %v", cmd)
 
 	stdout, err := cmd.StdoutPipe()
-- 
2.43.0


From 07de14df7ddbf439f339a4870b6b5cbd331b953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 13/50] fix: compare the start of the location of RRDP files
 with the allowed host

A location of another host only had to contain the URL of the allowed one.
---
 cmd/octorpki/octorpki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 884a97c..b77d677 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -352,7 +352,7 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
 	if len(args) > 0 {
 		rsync, ok := args[0].(string)
-		if ok && !strings.Contains(path, rsync) {
+		if ok && !strings.HasPrefix(path, rsync) {
 			log.Errorf("rrdp: %s is outside directory %s", path, rsync)
 			return nil
 		}
-- 
2.43.0


From 67475010fe2542262b3d6b766d5eb17ed88870c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 14/50] fix: fetch a repository over rsync if its RRDP URL
 belongs to another host

Anybody can name the RRDP URL of somebody else; the repository that is
named second was neither fetched over RRDP nor over rsync.
---
 cmd/octorpki/octorpki.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index b77d677..db06798 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1088,10 +1088,11 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 				prev, ok := s.getRRDPDomain(rrdpGeneralName)
 				if ok && prev != gnExtractedDomain {
 					log.Errorf("rrdp %s tries to override %s with %s", rrdpGeneralName, prev, gnExtractedDomain)
-					continue
+					rrdpGeneralName = ""
+				} else {
+					s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
+					s.setRRDPFetch(rrdpGeneralName, gnExtracted)
 				}
-				s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
-				s.setRRDPFetch(rrdpGeneralName, gnExtracted)
 			}
 			s.rsyncFetchJobManager.set(gnExtracted, rrdpGeneralName)
 			s.CurrentRepos[gnExtracted] = time.Now()
-- 
2.43.0


From 9c9264663b1b4d8ac4d7b9323b1babc382088e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 15/50] fix: keep track of all RRDP URLs and rsync modules that
 belong together

Only the last RRDP URL seen for an rsync module, and the last module seen
for an RRDP URL, were remembered: other certificates of the same module
were not fetched at all once that URL succeeded, a module could be fetched
over rsync although all of its RRDP URLs succeeded, and the state of two
URLs of a module overwrote each other. A new RRDP URL of a known module
did not count as a change, and the state of a failed RRDP fetch was kept
although the files are of another version after it.
---
 cmd/octorpki/octorpki.go     | 137 +++++++++++++++++++++++++++--------
 cmd/octorpki/rrdp_fetcher.go |  12 +--
 2 files changed, 111 insertions(+), 38 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index db06798..9c776f4 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -217,7 +217,7 @@ type OctoRPKI struct {
 	PrevRepos    map[string]time.Time
 	CurrentRepos map[string]time.Time
 
-	rrdpFetch         map[string]string // maps from RRDP Url to rsync URL
+	rrdpFetch         map[string]map[string]bool // maps from RRDP Url to the rsync URLs
 	rrdpFetchMu       sync.RWMutex
 	rrdpFetchDomain   map[string]string
 	rrdpFetchDomainMu sync.RWMutex
@@ -244,23 +244,52 @@ type OctoRPKI struct {
 	Filter bool
 }
 
-func (s *OctoRPKI) getRRDPFetch() map[string]string {
+func (s *OctoRPKI) getRRDPFetch() map[string][]string {
 	s.rrdpFetchMu.RLock()
 	defer s.rrdpFetchMu.RUnlock()
 
-	ret := make(map[string]string, len(s.rrdpFetch))
-	for k, v := range s.rrdpFetch {
-		ret[k] = v
+	ret := make(map[string][]string, len(s.rrdpFetch))
+	for path, rsyncURLs := range s.rrdpFetch {
+		for rsyncURL := range rsyncURLs {
+			ret[path] = append(ret[path], rsyncURL)
+		}
 	}
 
 	return ret
 }
 
-func (s *OctoRPKI) setRRDPFetch(key, value string) {
+// setSources replaces what is known about the repositories that have been seen
+// in a validation: maps from rsync URL to the RRDP URLs of the certificates
+// using it (an empty one if a certificate has no RRDP URL).
+func (s *OctoRPKI) setSources(sources map[string]map[string]bool) {
 	s.rrdpFetchMu.Lock()
 	defer s.rrdpFetchMu.Unlock()
 
-	s.rrdpFetch[key] = value
+	for path, rsyncURLs := range s.rrdpFetch {
+		for rsyncURL := range rsyncURLs {
+			if paths, ok := sources[rsyncURL]; ok && !paths[path] {
+				delete(rsyncURLs, rsyncURL)
+			}
+		}
+		if len(rsyncURLs) == 0 {
+			delete(s.rrdpFetch, path)
+			s.deleteRRDPInfo(path)
+		}
+	}
+
+	for rsyncURL, paths := range sources {
+		s.rsyncFetchJobManager.delete(rsyncURL)
+		for path := range paths {
+			s.rsyncFetchJobManager.set(rsyncURL, path)
+			if path == "" {
+				continue
+			}
+			if s.rrdpFetch[path] == nil {
+				s.rrdpFetch[path] = make(map[string]bool)
+			}
+			s.rrdpFetch[path][rsyncURL] = true
+		}
+	}
 }
 
 func (s *OctoRPKI) getRRDPDomain(path string) (string, bool) {
@@ -377,10 +406,14 @@ func (s *OctoRPKI) LoadRRDPInfo(file string) error {
 	defer s.RRDPInfoMu.Unlock()
 
 	s.RRDPInfo = make(map[string]RRDPInfo)
-	err = json.Unmarshal(fc, &s.RRDPInfo)
+	infos := make(map[string]RRDPInfo)
+	err = json.Unmarshal(fc, &infos)
 	if err != nil {
 		return fmt.Errorf("JSON unmarshal failed: %v", err)
 	}
+	for _, info := range infos {
+		s.RRDPInfo[info.Path] = info
+	}
 
 	return nil
 }
@@ -411,23 +444,31 @@ func (s *OctoRPKI) getRRDPInfo() map[string]RRDPInfo {
 	return ret
 }
 
+func (s *OctoRPKI) deleteRRDPInfo(path string) {
+	s.RRDPInfoMu.Lock()
+	defer s.RRDPInfoMu.Unlock()
+
+	delete(s.RRDPInfo, path)
+}
+
 func (s *OctoRPKI) mainRRDP(pSpan opentracing.Span) {
 	span := s.tracer.StartSpan("rrdp", opentracing.ChildOf(pSpan.Context()))
 	defer span.Finish()
 
 	fetcher := newRRDPFetcher(s, int(*MaxConcurrentRetrievals), span)
-	for path, rsync := range s.getRRDPFetch() {
-		fetcher.fetch(path, rsync)
+	for path, rsyncURLs := range s.getRRDPFetch() {
+		fetcher.fetch(path, rsyncURLs)
 	}
 
 	fetcher.done()
 	fetcher.wait()
 }
 
-func (s *OctoRPKI) fetchRRDP(path string, rsyncURL string, span opentracing.Span) {
+func (s *OctoRPKI) fetchRRDP(path string, rsyncURLs []string, span opentracing.Span) {
 	rSpan := s.tracer.StartSpan("sync", opentracing.ChildOf(span.Context()))
 	defer rSpan.Finish()
 
+	rsyncURL := strings.Join(rsyncURLs, ",")
 	rSpan.SetTag("rrdp", path)
 	rSpan.SetTag("rsync", rsyncURL)
 	rSpan.SetTag("type", "rrdp")
@@ -435,17 +476,19 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURL string, span opentracing.Span
 
 	MetricSIACounts.With(prometheus.Labels{"address": path, "type": "rrdp"}).Set(0)
 
-	rrdpSystem := s.newRRDPSystem(path, rsyncURL)
+	rrdpSystem := s.newRRDPSystem(path)
 
 	domain, _ := s.getRRDPDomain(path)
 	err := rrdpSystem.FetchRRDP(domain)
 	if err != nil {
-		s.rrdpError(rsyncURL, path, err, rSpan, rrdpSystem)
+		s.rrdpError(rsyncURLs, path, err, rSpan, rrdpSystem)
 		return
 	}
 
 	log.Debugf("Success fetching %s, removing rsync %s", path, rsyncURL)
-	s.rsyncFetchJobManager.delete(rsyncURL)
+	for _, rsyncURL := range rsyncURLs {
+		s.rsyncFetchJobManager.done(rsyncURL, path)
+	}
 
 	rSpan.LogKV("event", "rrdp", "type", "success", "message", "rrdp successfully fetched")
 	sentry.WithScope(func(scope *sentry.Scope) {
@@ -462,7 +505,7 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURL string, span opentracing.Span
 	s.RRDPInfoMu.Lock()
 	defer s.RRDPInfoMu.Unlock()
 
-	s.RRDPInfo[rsyncURL] = RRDPInfo{
+	s.RRDPInfo[path] = RRDPInfo{
 		RsyncURL:  rsyncURL,
 		Path:      path,
 		SessionID: rrdpSystem.SessionID,
@@ -470,7 +513,7 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURL string, span opentracing.Span
 	}
 }
 
-func (s *OctoRPKI) newRRDPSystem(path string, rsync string) *syncpki.RRDPSystem {
+func (s *OctoRPKI) newRRDPSystem(path string) *syncpki.RRDPSystem {
 	s.RRDPInfoMu.RLock()
 	defer s.RRDPInfoMu.RUnlock()
 
@@ -478,13 +521,14 @@ func (s *OctoRPKI) newRRDPSystem(path string, rsync string) *syncpki.RRDPSystem
 		Callback:  s.ReceiveRRDPFileCallback,
 		Path:      path,
 		Fetcher:   s.HTTPFetcher,
-		SessionID: s.RRDPInfo[rsync].SessionID,
-		Serial:    s.RRDPInfo[rsync].Serial,
+		SessionID: s.RRDPInfo[path].SessionID,
+		Serial:    s.RRDPInfo[path].Serial,
 		Log:       log.StandardLogger(),
 	}
 }
 
-func (s *OctoRPKI) rrdpError(rsyncURL string, path string, err error, rSpan opentracing.Span, rrdp *syncpki.RRDPSystem) {
+func (s *OctoRPKI) rrdpError(rsyncURLs []string, path string, err error, rSpan opentracing.Span, rrdp *syncpki.RRDPSystem) {
+	rsyncURL := strings.Join(rsyncURLs, ",")
 	rSpan.SetTag("error", true)
 	sentry.WithScope(func(scope *sentry.Scope) {
 		if errC, ok := err.(interface{ SetURL(string, string) }); ok {
@@ -503,12 +547,20 @@ func (s *OctoRPKI) rrdpError(rsyncURL string, path string, err error, rSpan open
 	if *RRDPFailover && err.Error() != "http: request body too large" {
 		log.Errorf("Error when processing %v (for %v): %v. Will add to rsync.", path, rsyncURL, err)
 		rSpan.LogKV("event", "rrdp failure", "type", "failover to rsync", "message", err)
+		for _, rsyncURL := range rsyncURLs {
+			s.rsyncFetchJobManager.set(rsyncURL, path)
+		}
 	} else {
 		log.Errorf("Error when processing %v (for %v): %v.Skipping failover to rsync.", path, rsyncURL, err)
 		rSpan.LogKV("event", "rrdp failure", "type", "skipping failover to rsync", "message", err)
-		s.rsyncFetchJobManager.delete(rsyncURL)
+		for _, rsyncURL := range rsyncURLs {
+			s.rsyncFetchJobManager.done(rsyncURL, path)
+		}
 	}
 
+	// The local copy may hold a part of another version, or what rsync provides
+	s.deleteRRDPInfo(path)
+
 	MetricRRDPErrors.With(prometheus.Labels{"address": path}).Inc()
 }
 
@@ -518,7 +570,7 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	defer span.Finish()
 
 	fetcher := newRsyncFetcher(s, int(*MaxConcurrentRetrievals), span)
-	for rsyncURL := range s.rsyncFetchJobManager.get() {
+	for _, rsyncURL := range s.rsyncFetchJobManager.get() {
 		fetcher.fetch(rsyncURL)
 	}
 
@@ -1032,6 +1084,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 	defer span.Finish()
 
 	ctData := make([][]*pki.PKIFile, 0)
+	sources := make(map[string]map[string]bool)
 
 	pkiManagers := make([]*pki.SimpleManager, len(s.Tals))
 	for i, tal := range s.Tals {
@@ -1091,10 +1144,15 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 					rrdpGeneralName = ""
 				} else {
 					s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
-					s.setRRDPFetch(rrdpGeneralName, gnExtracted)
+					if *RRDP {
+						s.CurrentRepos[rrdpGeneralName] = time.Now()
+					}
 				}
 			}
-			s.rsyncFetchJobManager.set(gnExtracted, rrdpGeneralName)
+			if sources[gnExtracted] == nil {
+				sources[gnExtracted] = make(map[string]bool)
+			}
+			sources[gnExtracted][rrdpGeneralName] = true
 			s.CurrentRepos[gnExtracted] = time.Now()
 			count++
 
@@ -1121,6 +1179,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 		}
 	}
 
+	s.setSources(sources)
 	s.setInfoAuthorities(ia)
 	s.setROAList(s.generateROAList(pkiManagers, span))
 
@@ -1467,7 +1526,7 @@ func NewOctoRPKI(tals []*pki.PKIFile, talNames []string) *OctoRPKI {
 		PrevRepos:            make(map[string]time.Time),
 		CurrentRepos:         make(map[string]time.Time),
 		rsyncFetchJobManager: newRsyncFetchJobManager(),
-		rrdpFetch:            make(map[string]string),
+		rrdpFetch:            make(map[string]map[string]bool),
 		rrdpFetchDomain:      make(map[string]string),
 		Fetcher:              syncpki.NewLocalFetch(*Basepath),
 		HTTPFetcher:          syncpki.NewHTTPFetcher(*UserAgent),
@@ -1482,13 +1541,13 @@ func NewOctoRPKI(tals []*pki.PKIFile, talNames []string) *OctoRPKI {
 }
 
 type rsyncFetchJobManager struct {
-	rsyncFetchJobs   map[string]string
+	rsyncFetchJobs   map[string]map[string]bool // maps from rsync URL to the RRDP URLs that did not provide it
 	rsyncFetchJobsMu sync.RWMutex
 }
 
 func newRsyncFetchJobManager() *rsyncFetchJobManager {
 	return &rsyncFetchJobManager{
-		rsyncFetchJobs: make(map[string]string),
+		rsyncFetchJobs: make(map[string]map[string]bool),
 	}
 }
 
@@ -1499,23 +1558,37 @@ func (r *rsyncFetchJobManager) delete(job string) {
 	delete(r.rsyncFetchJobs, job)
 }
 
-func (r *rsyncFetchJobManager) get() map[string]string {
+// done removes the job once none of its RRDP URLs needs it anymore
+func (r *rsyncFetchJobManager) done(job, path string) {
+	r.rsyncFetchJobsMu.Lock()
+	defer r.rsyncFetchJobsMu.Unlock()
+
+	delete(r.rsyncFetchJobs[job], path)
+	if len(r.rsyncFetchJobs[job]) == 0 {
+		delete(r.rsyncFetchJobs, job)
+	}
+}
+
+func (r *rsyncFetchJobManager) get() []string {
 	r.rsyncFetchJobsMu.RLock()
 	defer r.rsyncFetchJobsMu.RUnlock()
 
-	ret := make(map[string]string, len(r.rsyncFetchJobs))
-	for k, v := range r.rsyncFetchJobs {
-		ret[k] = v
+	ret := make([]string, 0, len(r.rsyncFetchJobs))
+	for k := range r.rsyncFetchJobs {
+		ret = append(ret, k)
 	}
 
 	return ret
 }
 
-func (r *rsyncFetchJobManager) set(key, value string) {
+func (r *rsyncFetchJobManager) set(job, path string) {
 	r.rsyncFetchJobsMu.Lock()
 	defer r.rsyncFetchJobsMu.Unlock()
 
-	r.rsyncFetchJobs[key] = value
+	if r.rsyncFetchJobs[job] == nil {
+		r.rsyncFetchJobs[job] = make(map[string]bool)
+	}
+	r.rsyncFetchJobs[job][path] = true
 }
 
 func newROAList() *prefixfile.ROAList {
diff --git a/cmd/octorpki/rrdp_fetcher.go b/cmd/octorpki/rrdp_fetcher.go
index 53d7484..45276e9 100644
--- a/cmd/octorpki/rrdp_fetcher.go
+++ b/cmd/octorpki/rrdp_fetcher.go
@@ -7,8 +7,8 @@ import (
 )
 
 type rrdpFetchJob struct {
-	path  string
-	rsync string
+	path      string
+	rsyncURLs []string
 }
 
 type rrdpFetcher struct {
@@ -37,7 +37,7 @@ func (r *rrdpFetcher) worker() {
 	defer r.wg.Done()
 
 	for job := range r.jobsCh {
-		r.octoRPKI.fetchRRDP(job.path, job.rsync, r.span)
+		r.octoRPKI.fetchRRDP(job.path, job.rsyncURLs, r.span)
 	}
 }
 
@@ -49,9 +49,9 @@ func (r *rrdpFetcher) wait() {
 	r.wg.Wait()
 }
 
-func (r *rrdpFetcher) fetch(path string, rsync string) {
+func (r *rrdpFetcher) fetch(path string, rsyncURLs []string) {
 	r.jobsCh <- rrdpFetchJob{
-		path:  path,
-		rsync: rsync,
+		path:      path,
+		rsyncURLs: rsyncURLs,
 	}
 }
-- 
2.43.0


From d729cdd0099f8badfd8c918e0933abb82b3a3b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 16/50] fix: store root certificates fetched over rsync where
 they are looked for

The location of the certificate was used as the destination folder, so
that the file ended up in a folder named like the certificate.
---
 cmd/octorpki/octorpki.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 9c776f4..4a3f17b 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -594,6 +594,11 @@ func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 		return
 	}
 
+	// A file inside a module (root certificate) has to be placed in its folder
+	if strings.Count(downloadPath, "/") > 1 {
+		downloadPath = filepath.Dir(downloadPath)
+	}
+
 	path := filepath.Join(*Basepath, downloadPath)
 	ctxRsync, cancelRsync := context.WithTimeout(context.Background(), *RsyncTimeout)
 	defer cancelRsync()
-- 
2.43.0


From ad7dc570d3abff48a95754519cc2b00d1cbb2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 17/50] fix: fetch the repositories of authorities with an
 incomplete manifest

An authority is invalidated when a file of its manifest is missing or
different, or the manifest is outdated. After a restart on such a cache
(e.g. interrupted while a snapshot was being written) its repository was
never fetched again, since only those of valid authorities are: the
content stayed unavailable for good.
---
 cmd/octorpki/octorpki.go | 16 +++++++++++++++-
 validator/pki/pki.go     | 18 ++++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 4a3f17b..5904f60 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1077,6 +1077,20 @@ func (s *OctoRPKI) signROAList(roaList *prefixfile.ROAList, span opentracing.Spa
 	roaList.Metadata.SignatureDate = signdate
 }
 
+// authorities returns the certificates whose repositories have to be fetched:
+// the valid ones and those that only lack files their manifest refers to.
+func authorities(validator *pki.Validator) []*pki.Resource {
+	ret := make([]*pki.Resource, 0, len(validator.ValidObjects))
+	for _, res := range validator.ValidObjects {
+		ret = append(ret, res)
+	}
+	for _, res := range validator.Incomplete {
+		ret = append(ret, res)
+	}
+
+	return ret
+}
+
 func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 	t1 := time.Now()
 	ia := make([][]SIA, len(s.Tals))
@@ -1123,7 +1137,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 			count++
 		}
 
-		for _, pkiResource := range pkiManagers[i].Validator.ValidObjects {
+		for _, pkiResource := range authorities(pkiManagers[i].Validator) {
 			if pkiResource.Type != pki.TYPE_CER {
 				continue
 			}
diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 5f350dd..c5ede7e 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -196,6 +196,10 @@ type Validator struct {
 	ValidObjects map[string]*Resource
 	Objects      map[string]*Resource
 
+	// Key by SubjectKeyIdentifier: authorities that are not valid because of
+	// an issue with their own manifest, fetching their repository may solve it
+	Incomplete map[string]*Resource
+
 	// Key by path
 	ObjectsPath map[string]*Resource
 
@@ -226,6 +230,8 @@ func NewValidator() *Validator {
 		ValidObjects: make(map[string]*Resource),
 		Objects:      make(map[string]*Resource),
 
+		Incomplete: make(map[string]*Resource),
+
 		ObjectsPath: make(map[string]*Resource),
 
 		CertsSerial: make(map[string]*Resource),
@@ -375,6 +381,14 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 	return false, nil, nil, errors.New("Unknown file type")
 }
 
+// InvalidateIncomplete invalidates an authority because of its own manifest
+func (v *Validator) InvalidateIncomplete(keyid []byte) {
+	if res, ok := v.ValidObjects[string(keyid)]; ok {
+		v.Incomplete[string(keyid)] = res
+	}
+	v.InvalidateObject(keyid)
+}
+
 func (v *Validator) InvalidateObject(keyid []byte) {
 	invalidated := make(map[string]bool)
 	invalidateList := make([][]byte, 1)
@@ -696,7 +710,7 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 				v.InvalidateObject(childConv.Certificate.SubjectKeyId)
 				if child.Type == TYPE_MFTCER {
 					// Nothing vouches for the objects of the authority anymore
-					v.InvalidateObject(aki)
+					v.InvalidateIncomplete(aki)
 				}
 			}
 			parent.Childs = append(parent.Childs, res)
@@ -796,7 +810,7 @@ func (sm *SimpleManager) InvalidateManifestParent(file *PKIFile, mftError error)
 		if ok && res != nil && res.Resource != nil {
 			cert, ok := res.Resource.(*librpki.RPKICertificate)
 			if ok {
-				sm.Validator.InvalidateObject(cert.Certificate.SubjectKeyId)
+				sm.Validator.InvalidateIncomplete(cert.Certificate.SubjectKeyId)
 
 				err := NewCertificateErrorManifestRevocation(cert, mftError, file.Parent, file)
 				sm.reportErrorFile(err, file.Parent.Parent, nil)
-- 
2.43.0


From 228aba983ce031f028550c5cb41a71c8519721d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 18/50] fix: read the RRDP state only once

Reading it again in every round brought back an older state when it could
not be saved, although the local copy had moved on.
---
 cmd/octorpki/octorpki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 5904f60..488ee6f 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1734,7 +1734,7 @@ func (s *OctoRPKI) doRRDP(span opentracing.Span) {
 		MetricOperationTime.With(prometheus.Labels{"type": "rrdp"}).Observe(float64(t2.Sub(t1).Seconds()))
 	}()
 
-	if *RRDPFile != "" {
+	if *RRDPFile != "" && s.stats.iterations.Load() <= 1 {
 		err := s.LoadRRDPInfo(*RRDPFile)
 		if err != nil {
 			sentry.CaptureException(err)
-- 
2.43.0


From 84440fc002610bbd89c74048d56f6bc91f605638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 19/50] fix: apply RRDP documents only if they are what was
 announced

Snapshots and deltas were not compared with the hash of the notification,
a document that is not one (e.g. a page of a proxy) counted as an empty
one that was fetched successfully, and errors when applying the withdrawal
of a delta were ignored.
---
 sync/lib/rrdp.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index c47eb12..b421601 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -2,7 +2,9 @@ package syncpki
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/base64"
+	"encoding/hex"
 	"encoding/xml"
 	"errors"
 	"fmt"
@@ -67,6 +69,7 @@ func (f *HTTPFetcher) GetXML(url string) (string, error) {
 
 func ParseRoot(data string) (Notification, error) {
 	n := Notification{}
+	var found bool
 
 	r := bytes.NewBufferString(data)
 	decoder := xml.NewDecoder(r)
@@ -87,9 +90,13 @@ func ParseRoot(data string) (Notification, error) {
 				if err != nil {
 					return n, errors.New("XML does not conform to schema")
 				}
+				found = true
 			}
 		}
 	}
+	if !found {
+		return n, errors.New("XML does not contain a notification")
+	}
 	return n, nil
 }
 
@@ -98,6 +105,7 @@ func ParseNode(data string) ([]Cert, []Cert, error) {
 	var withdraw []Cert
 	d := Delta{}
 	s := Snapshot{}
+	var found bool
 
 	byteStr := bytes.NewBufferString(data)
 	decoder := xml.NewDecoder(byteStr)
@@ -128,6 +136,7 @@ func ParseNode(data string) ([]Cert, []Cert, error) {
 				if err != nil {
 					return publish, withdraw, errors.New("XML does not conform to schema")
 				}
+				found = true
 			case "snapshot":
 				err := decoder.DecodeElement(&s, &se)
 
@@ -144,14 +153,27 @@ func ParseNode(data string) ([]Cert, []Cert, error) {
 				if err != nil {
 					return publish, withdraw, errors.New("XML does not conform to schema")
 				}
+				found = true
 			}
 		}
 	}
+	if !found {
+		return publish, withdraw, errors.New("XML contains neither a snapshot nor a delta")
+	}
 	return publish, withdraw, nil
 }
 
 type RRDPFile func(main string, url string, path string, data []byte, withdraw bool, snapshot bool, curId int64, args ...interface{}) error
 
+// checkHash compares a document with the hash announced in the notification
+func checkHash(el ElNode, data string) error {
+	hash := sha256.Sum256([]byte(data))
+	if el.Hash != "" && !strings.EqualFold(el.Hash, hex.EncodeToString(hash[:])) {
+		return fmt.Errorf("%s does not match the hash of the notification", el.URI)
+	}
+	return nil
+}
+
 type RRDPSystem struct {
 	Log     Logger
 	Fetcher RRDPFetcher
@@ -253,6 +275,12 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 			Category: "http",
 		}, nil)
 
+		err = checkHash(root.Snapshot, data)
+		if err != nil {
+			sHub.CaptureException(err)
+			return err
+		}
+
 		publish, withdraw, err := ParseNode(data)
 		if err != nil {
 			sHub.CaptureException(err)
@@ -322,6 +350,12 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 				Category: "http",
 			}, nil)
 
+			err = checkHash(elNode, data)
+			if err != nil {
+				sHub.CaptureException(err)
+				return err
+			}
+
 			deltaPublish, deltaWithdraw, err := ParseNode(data)
 			if err != nil {
 				sHub.CaptureException(err)
@@ -351,7 +385,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 					if err != nil {
 						return err
 					}
-					s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
+					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
 					if err != nil {
 						return err
 					}
-- 
2.43.0


From 5350f2195167bfb21d4ccbc5b117e3940afaadda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 20/50] fix: fetch the snapshot if the serial of an RRDP
 repository went back

The local copy was kept as it was, at a serial the repository did not
have anymore.
---
 sync/lib/rrdp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index b421601..288a75c 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -259,7 +259,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 		}
 	}
 
-	if lastSerial == 0 || lastSessionID != curSessionID || missingFiles {
+	if lastSerial == 0 || lastSessionID != curSessionID || curSerial < lastSerial || missingFiles {
 		if s.Log != nil {
 			s.Log.Infof("RRDP: %s downloading snapshot at: %s", s.Path, root.Snapshot.URI)
 		}
-- 
2.43.0


From f4e24d3f960501b538d2e306cd313577d75d563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 21/50] fix: use root certificates only if they are valid

A certificate that does not match its TAL, that is not signed by its own key
or that has expired was written to the cache and the other URIs of the TAL
were not tried.
---
 cmd/octorpki/octorpki.go | 30 ++++++++++++++++++++++++++++++
 validator/lib/cert.go    |  9 +++++++++
 validator/pki/pki.go     |  8 +++++++-
 3 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 488ee6f..bea0ccb 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -777,6 +777,15 @@ func (s *OctoRPKI) fetchTALurl(tal *librpki.RPKITAL, uri string, path string, tS
 		return false, ""
 	}
 
+	err = checkRootCertificate(tal, data)
+	if err != nil {
+		tfSpan.SetTag("error", true)
+		tfSpan.SetTag("message", err)
+		log.Errorf("unusable root certificate at %s: %v", uri, err)
+		sHub.CaptureException(err)
+		return false, ""
+	}
+
 	// Plan option to store everything in memory
 	err = s.WriteRsyncFileOnDisk(tal.GetRsyncURI(), data)
 	if err != nil {
@@ -796,6 +805,27 @@ func (s *OctoRPKI) fetchTALurl(tal *librpki.RPKITAL, uri string, path string, tS
 	return true, uri
 }
 
+// checkRootCertificate returns an error if the data cannot be used as the root certificate of the TAL
+func checkRootCertificate(tal *librpki.RPKITAL, data []byte) error {
+	der, err := librpki.BER2DER(data)
+	if err != nil {
+		return err
+	}
+	cert, err := librpki.DecodeCertificate(der)
+	if err != nil {
+		return err
+	}
+	if !tal.CheckCertificate(cert.Certificate) {
+		return fmt.Errorf("certificate does not match the TAL")
+	}
+	err = cert.ValidateSelfSigned()
+	if err != nil {
+		return err
+	}
+
+	return cert.ValidateTime(time.Now())
+}
+
 func logCollector(sm *pki.SimpleManager, tal *pki.PKIFile, tSpan opentracing.Span) {
 	for err := range sm.Errors {
 		tSpan.SetTag("error", true)
diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 7a1b8cd..526d710 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -572,6 +572,15 @@ func (cert *RPKICertificate) Validate(parent *RPKICertificate) error {
 	return nil
 }
 
+// ValidateSelfSigned checks the signature of a root certificate
+func (cert *RPKICertificate) ValidateSelfSigned() error {
+	if cert.Certificate == nil {
+		return errors.New("No certificate found")
+	}
+	c := cert.Certificate
+	return c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature)
+}
+
 func (cert *RPKICertificate) ValidateTime(comp time.Time) error {
 	if cert.Certificate == nil {
 		return errors.New("No certificate found")
diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index c5ede7e..90c88ef 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -311,11 +311,17 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 				if !talValidation {
 					return false, nil, nil, errors.New("Certificate was not validated against TAL")
 				}
-				v.TALs[pkifile.Path].CertTALValid = true // indicates that we can skip downloading
+				err = cert.ValidateSelfSigned()
+				if err != nil {
+					return false, nil, nil, fmt.Errorf("Root certificate is not signed by its own key: %v", err)
+				}
 			}
 		}
 
 		valid, pathCert, res, err := v.AddCert(cert, pkifile.Trust)
+		if talComp, ok := v.TALs[pkifile.Path]; ok && valid && pkifile.Parent != nil && pkifile.Parent.Type == TYPE_TAL {
+			talComp.CertTALValid = true // indicates that we can skip downloading
+		}
 		if res == nil {
 			return valid, pathCert, res, fmt.Errorf("Resource is empty: %v", err)
 		}
-- 
2.43.0


From c072ad1d39ecda383463cc0a5d4c4bff02cd1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 22/50] fix: publish the results of a validation at once

The list, its metadata, the resources, the authorities, the counts and the
state were replaced one after the other while requests were served, the
resources were written to the client with the lock held, entries of the
authorities were updated through pointers to reallocated slices, and lists of
the same second and size had the same tag.
---
 cmd/octorpki/octorpki.go | 202 ++++++++++++++++++++-------------------
 1 file changed, 105 insertions(+), 97 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index bea0ccb..4de1b6a 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"crypto/ecdsa"
 	"crypto/sha256"
@@ -203,11 +204,10 @@ func ReadKey(key []byte, isPem bool) (*ecdsa.PrivateKey, error) {
 }
 
 type OctoRPKI struct {
-	Tals         []*pki.PKIFile
-	TalsFetch    map[string]*librpki.RPKITAL
-	TalNames     []string
-	LastComputed time.Time
-	Key          *ecdsa.PrivateKey
+	Tals      []*pki.PKIFile
+	TalsFetch map[string]*librpki.RPKITAL
+	TalNames  []string
+	Key       *ecdsa.PrivateKey
 
 	Stable            atomic.Bool // Indicates something has been added to the fetch list (rsync or rrdp)
 	HasPreviousStable atomic.Bool
@@ -227,18 +227,14 @@ type OctoRPKI struct {
 	RRDPInfo   map[string]RRDPInfo
 	RRDPInfoMu sync.RWMutex
 
-	ROAList   *prefixfile.ROAList
-	ROAListMu sync.RWMutex
-
-	InfoAuthorities     [][]SIA
-	InfoAuthoritiesLock sync.RWMutex
+	// Results of the last validation, replaced along with
+	// Stable and HasPreviousStable
+	results   *validationResults
+	resultsMu sync.RWMutex
 
 	stats  *octoRPKIStats
 	tracer opentracing.Tracer
 
-	Resources   *schemas.ResourcesJSON
-	ResourcesMu sync.RWMutex
-
 	DoCT   bool
 	CTPath string
 	Filter bool
@@ -308,14 +304,28 @@ func (s *OctoRPKI) setRRDPDomain(path string, domain string) {
 }
 
 type octoRPKIStats struct {
-	ValidationDuration time.Duration
-	iterations         atomic.Uint64
-	ROAsTALsCount      []ROAsTAL
+	iterations atomic.Uint64
 }
 
 func newOctoRPKIStats() *octoRPKIStats {
-	return &octoRPKIStats{
-		ROAsTALsCount: make([]ROAsTAL, 0),
+	return &octoRPKIStats{}
+}
+
+// validationResults is everything a validation provides to the outside
+type validationResults struct {
+	Computed        time.Time
+	Duration        time.Duration
+	ROAList         *prefixfile.ROAList
+	ROAsTALsCount   []ROAsTAL
+	Resources       *schemas.ResourcesJSON
+	InfoAuthorities [][]SIA
+}
+
+func newValidationResults() *validationResults {
+	return &validationResults{
+		ROAList:         newROAList(),
+		ROAsTALsCount:   make([]ROAsTAL, 0),
+		InfoAuthorities: make([][]SIA, 0),
 	}
 }
 
@@ -841,7 +851,7 @@ func logCollector(sm *pki.SimpleManager, tal *pki.PKIFile, tSpan opentracing.Spa
 	}
 }
 
-func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentracing.Span) *prefixfile.ROAList {
+func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, results *validationResults, span opentracing.Span) {
 	roalist := &prefixfile.ROAList{
 		Data: make([]prefixfile.ROAJson, 0),
 	}
@@ -851,7 +861,6 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	}
 	resourcesMap := make(map[string]*schemas.OutputRes)
 	resourcesjson.Metadata.Generated = int(time.Now().UTC().UnixNano() / 1000000000)
-	s.stats.ROAsTALsCount = make([]ROAsTAL, 0)
 	for i, tal := range s.Tals {
 		eSpan := s.tracer.StartSpan("extract", opentracing.ChildOf(span.Context()))
 		eSpan.SetTag("tal", tal.Path)
@@ -1014,8 +1023,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			resourcesjson.Resources = append(resourcesjson.Resources, curResource)
 		}
 
-		s.stats.ROAsTALsCount = append(s.stats.ROAsTALsCount, ROAsTAL{TA: talname, Count: counttal})
-		MetricROAsCount.With(prometheus.Labels{"ta": talname}).Set(float64(counttal))
+		results.ROAsTALsCount = append(results.ROAsTALsCount, ROAsTAL{TA: talname, Count: counttal})
 
 		// Complete: Manifests
 		for _, obj := range pkiManagers[i].Validator.ValidManifest {
@@ -1070,7 +1078,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 		eSpan.Finish()
 	}
 	curTime := time.Now()
-	s.LastComputed = curTime
+	results.Computed = curTime
 	validTime := curTime.Add(*ValidityDuration)
 	roalist.Metadata = prefixfile.MetaData{
 		Counts:    counts,
@@ -1087,11 +1095,8 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 		s.signROAList(roalist, span)
 	}
 
-	s.ResourcesMu.Lock()
-	defer s.ResourcesMu.Unlock()
-	s.Resources = resourcesjson
-
-	return roalist
+	results.Resources = resourcesjson
+	results.ROAList = roalist
 }
 
 func (s *OctoRPKI) signROAList(roaList *prefixfile.ROAList, span opentracing.Span) {
@@ -1121,13 +1126,12 @@ func authorities(validator *pki.Validator) []*pki.Resource {
 	return ret
 }
 
-func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
+func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *validationResults) {
 	t1 := time.Now()
 	ia := make([][]SIA, len(s.Tals))
 	for i := 0; i < len(ia); i++ {
 		ia[i] = make([]SIA, 0)
 	}
-	iatmp := make(map[string]*SIA)
 
 	span := s.tracer.StartSpan("validation", opentracing.ChildOf(pSpan.Context()))
 	defer span.Finish()
@@ -1167,6 +1171,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 			count++
 		}
 
+		iatmp := make(map[string]int) // index in the list of the TAL
 		for _, pkiResource := range authorities(pkiManagers[i].Validator) {
 			if pkiResource.Type != pki.TYPE_CER {
 				continue
@@ -1206,18 +1211,15 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 			count++
 
 			// map the rrdp and rsync by TAL for info page
-			sia, ok := iatmp[gnExtracted]
+			index, ok := iatmp[gnExtracted]
 			if !ok {
-				tmpSIA := SIA{
-					gnExtracted,
-					rrdpGeneralName,
-				}
-				ia[i] = append(ia[i], tmpSIA)
-				sia = &(ia[i][len(ia[i])-1])
-				iatmp[gnExtracted] = sia
+				index = len(ia[i])
+				iatmp[gnExtracted] = index
+				ia[i] = append(ia[i], SIA{Rsync: gnExtracted})
+			}
+			if rrdpGeneralName != "" {
+				ia[i][index].RRDP = rrdpGeneralName
 			}
-			sia.Rsync = gnExtracted
-			sia.RRDP = rrdpGeneralName
 		}
 		sm.Close()
 		tSpan.LogKV("count-valid", count, "count-total", countExplore)
@@ -1229,15 +1231,16 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 	}
 
 	s.setSources(sources)
-	s.setInfoAuthorities(ia)
-	s.setROAList(s.generateROAList(pkiManagers, span))
+
+	results := newValidationResults()
+	results.InfoAuthorities = ia
+	s.generateROAList(pkiManagers, results, span)
 
 	t2 := time.Now()
-	s.stats.ValidationDuration = t2.Sub(t1)
-	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(s.stats.ValidationDuration.Seconds()))
-	MetricLastValidation.Set(float64(s.LastComputed.Unix()))
+	results.Duration = t2.Sub(t1)
+	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(results.Duration.Seconds()))
 
-	return ctData
+	return ctData, results
 }
 
 func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile {
@@ -1278,35 +1281,42 @@ func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile
 	return pathCT
 }
 
-func (s *OctoRPKI) setInfoAuthorities(ia [][]SIA) {
-	s.InfoAuthoritiesLock.Lock()
-	defer s.InfoAuthoritiesLock.Unlock()
-
-	s.InfoAuthorities = ia
-}
+// publish makes the results of a validation available, along with the state
+func (s *OctoRPKI) publish(results *validationResults, stable bool) {
+	s.resultsMu.Lock()
+	defer s.resultsMu.Unlock()
 
-func (s *OctoRPKI) setROAList(roaList *prefixfile.ROAList) {
-	s.ROAListMu.Lock()
-	defer s.ROAListMu.Unlock()
+	s.results = results
+	s.Stable.Store(stable)
+	s.HasPreviousStable.Store(stable)
 
-	s.ROAList = roaList
+	for _, count := range results.ROAsTALsCount {
+		MetricROAsCount.With(prometheus.Labels{"ta": count.TA}).Set(float64(count.Count))
+	}
+	MetricLastValidation.Set(float64(results.Computed.Unix()))
 }
 
-func (s *OctoRPKI) getROAList() *prefixfile.ROAList {
-	s.ROAListMu.RLock()
-	defer s.ROAListMu.RUnlock()
+// getResults returns the results to serve, nil if they are not complete yet
+func (s *OctoRPKI) getResults() *validationResults {
+	s.resultsMu.RLock()
+	defer s.resultsMu.RUnlock()
 
-	return s.ROAList
+	if !s.Stable.Load() && *WaitStable && !s.HasPreviousStable.Load() {
+		return nil
+	}
+
+	return s.results
 }
 
 func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
-	if !s.Stable.Load() && *WaitStable && !s.HasPreviousStable.Load() {
+	results := s.getResults()
+	if results == nil {
 		w.WriteHeader(http.StatusServiceUnavailable)
 		w.Write([]byte("File not ready yet"))
 		return
 	}
 
-	upTo := s.LastComputed.Add(*ValidityDuration)
+	upTo := results.Computed.Add(*ValidityDuration)
 	maxAge := int(upTo.Sub(time.Now()).Seconds())
 
 	w.Header().Set("Content-Type", "application/json")
@@ -1315,12 +1325,12 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 		w.Header().Set("Cache-Control", fmt.Sprintf("max-age=%v", maxAge))
 	}
 
-	roaList := s.getROAList()
+	var body bytes.Buffer
+	enc := json.NewEncoder(&body)
+	enc.Encode(results.ROAList)
 
-	etag := sha256.New()
-	etag.Write([]byte(fmt.Sprintf("%v/%v", roaList.Metadata.Generated, roaList.Metadata.Counts)))
-	etagSum := etag.Sum(nil)
-	etagSumHex := hex.EncodeToString(etagSum)
+	etagSum := sha256.Sum256(body.Bytes())
+	etagSumHex := hex.EncodeToString(etagSum[:])
 
 	if match := r.Header.Get("If-None-Match"); match != "" {
 		if match == etagSumHex {
@@ -1330,12 +1340,12 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 	}
 
 	w.Header().Set("Etag", etagSumHex)
-	enc := json.NewEncoder(w)
-	enc.Encode(roaList)
+	w.Write(body.Bytes())
 }
 
 func (s *OctoRPKI) ServeResources(w http.ResponseWriter, r *http.Request) {
-	if !s.Stable.Load() && *WaitStable && !s.HasPreviousStable.Load() {
+	results := s.getResults()
+	if results == nil {
 		w.WriteHeader(http.StatusServiceUnavailable)
 		w.Write([]byte("File not ready yet"))
 		return
@@ -1343,10 +1353,7 @@ func (s *OctoRPKI) ServeResources(w http.ResponseWriter, r *http.Request) {
 
 	w.Header().Set("Content-Type", "application/json")
 	enc := json.NewEncoder(w)
-
-	s.ResourcesMu.RLock()
-	defer s.ResourcesMu.RUnlock()
-	enc.Encode(s.Resources)
+	enc.Encode(results.Resources)
 }
 
 func (s *OctoRPKI) ServeHealth(w http.ResponseWriter, r *http.Request) {
@@ -1386,10 +1393,12 @@ type InfoResult struct {
 func (s *OctoRPKI) ServeInfo(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 
-	s.InfoAuthoritiesLock.RLock()
-	ia := s.InfoAuthorities
-	s.InfoAuthoritiesLock.RUnlock()
+	s.resultsMu.RLock()
+	results := s.results
+	stable := s.Stable.Load()
+	s.resultsMu.RUnlock()
 
+	ia := results.InfoAuthorities
 	ias := make([]InfoAuthorities, 0)
 	for i, tal := range s.Tals {
 
@@ -1413,11 +1422,11 @@ func (s *OctoRPKI) ServeInfo(w http.ResponseWriter, r *http.Request) {
 
 	ir := InfoResult{
 		TAs:                ias,
-		ROACount:           len(s.ROAList.Data),
-		ROAsTALs:           s.stats.ROAsTALsCount,
-		Stable:             s.Stable.Load(),
-		LastValidation:     int(s.LastComputed.Unix()),
-		ValidationDuration: s.stats.ValidationDuration.Seconds(),
+		ROACount:           len(results.ROAList.Data),
+		ROAsTALs:           results.ROAsTALsCount,
+		Stable:             stable,
+		LastValidation:     int(results.Computed.Unix()),
+		ValidationDuration: results.Duration.Seconds(),
 		Iteration:          int(s.stats.iterations.Load()),
 	}
 	enc := json.NewEncoder(w)
@@ -1579,9 +1588,8 @@ func NewOctoRPKI(tals []*pki.PKIFile, talNames []string) *OctoRPKI {
 		rrdpFetchDomain:      make(map[string]string),
 		Fetcher:              syncpki.NewLocalFetch(*Basepath),
 		HTTPFetcher:          syncpki.NewHTTPFetcher(*UserAgent),
-		ROAList:              newROAList(),
+		results:              newValidationResults(),
 		stats:                newOctoRPKIStats(),
-		InfoAuthorities:      make([][]SIA, 0),
 		tracer:               opentracing.GlobalTracer(),
 		DoCT:                 *CertTransparency,
 		CTPath:               *CertTransparencyAddr,
@@ -1673,25 +1681,25 @@ func (s *OctoRPKI) validationLoop() {
 
 		s.mainRsync(span)
 
-		ctData := s.mainValidation(span)
+		ctData, results := s.mainValidation(span)
 
 		// Reduce
 		changed := s.MainReduce()
-		s.Stable.Store(!changed && s.stats.iterations.Load() > 1)
-		s.HasPreviousStable.Store(s.Stable.Load())
-
-		if *Mode == "oneoff" && (s.Stable.Load() || !*WaitStable) {
-			s.mustOutput()
-		}
-
-		span.SetTag("stable", s.Stable.Load())
+		stable := !changed && s.stats.iterations.Load() > 1
+		span.SetTag("stable", stable)
 		span.Finish()
 
 		// GHSA-g5gj-9ggf-9vmq: Prevent infinite repository traversal
-		if iterationsUntilStable > *MaxIterations {
+		if !stable && iterationsUntilStable > *MaxIterations {
 			// GHSA-pmw9-567p-68pc: Do not crash when MaxIterations is reached
 			log.Warning("Max iterations has been reached. Defining current state as stable and stoppping deeper validation. This number can be adjusted with -max.iterations")
-			s.Stable.Store(true)
+			stable = true
+		}
+
+		s.publish(results, stable)
+
+		if *Mode == "oneoff" && (s.Stable.Load() || !*WaitStable) {
+			s.mustOutput()
 		}
 
 		if *Mode == "oneoff" && s.Stable.Load() {
@@ -1714,7 +1722,7 @@ func (s *OctoRPKI) validationLoop() {
 		}
 
 		if s.Stable.Load() {
-			MetricLastStableValidation.Set(float64(s.LastComputed.Unix()))
+			MetricLastStableValidation.Set(float64(results.Computed.Unix()))
 			MetricState.Set(float64(1))
 
 			pSpan.SetTag("iterations", iterationsUntilStable)
@@ -1740,7 +1748,7 @@ func (s *OctoRPKI) mustOutput() {
 }
 
 func (s *OctoRPKI) output() error {
-	fc, err := json.Marshal(s.ROAList)
+	fc, err := json.Marshal(s.results.ROAList)
 	if err != nil {
 		return fmt.Errorf("unable to marshal ROA list: %v", err)
 	}
-- 
2.43.0


From e224f58c23b49ed7b506a0f71263157e4629bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 23/50] fix: continue exploring if a known rsync module is
 referred to in another way

A certificate without RRDP URL in a module so far only fetched over RRDP did
not count as a change: the state was declared stable before the module was
ever fetched over rsync.
---
 cmd/octorpki/octorpki.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 4de1b6a..3664723 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1198,9 +1198,6 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *va
 					rrdpGeneralName = ""
 				} else {
 					s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
-					if *RRDP {
-						s.CurrentRepos[rrdpGeneralName] = time.Now()
-					}
 				}
 			}
 			if sources[gnExtracted] == nil {
@@ -1208,6 +1205,10 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *va
 			}
 			sources[gnExtracted][rrdpGeneralName] = true
 			s.CurrentRepos[gnExtracted] = time.Now()
+			if *RRDP {
+				// The same module without or with another RRDP URL has to be fetched too
+				s.CurrentRepos[gnExtracted+" "+rrdpGeneralName] = time.Now()
+			}
 			count++
 
 			// map the rrdp and rsync by TAL for info page
-- 
2.43.0


From 6e0d6cee124270f523831122affbd694a5988361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 24/50] fix: do not let references to the objects of another
 authority get in their way

Listing the manifest, the CRL or the certificates of another authority in
a manifest, or referring to them in a certificate, kept them from being
explored on behalf of their own authority, which was invalidated then.
---
 validator/pki/pki.go | 80 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 73 insertions(+), 7 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 90c88ef..965be70 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -95,6 +95,9 @@ type SimpleManager struct {
 	ToExploreUnique map[string]bool
 	Log             Log
 
+	// Files by the authority that refers to them, true once explored
+	references map[fileReference]bool
+
 	ReportErrors bool
 	Errors       chan error
 
@@ -102,12 +105,29 @@ type SimpleManager struct {
 	StrictHash      bool
 }
 
+// fileReference identifies a file by its path and by what refers to it: any
+// authority may refer to the files of another one, which have to be explored
+// because of their own authority nevertheless.
+type fileReference struct {
+	parent *PKIFile
+	path   string
+}
+
+func newFileReference(file *PKIFile) fileReference {
+	ref := fileReference{path: file.ComputePath()}
+	if file.Parent != nil && (file.Parent.Type == TYPE_MFT || file.Type == TYPE_MFT) {
+		ref.parent = file.Parent
+	}
+	return ref
+}
+
 func NewSimpleManager() *SimpleManager {
 	return &SimpleManager{
 		PathOfResource:  make(map[*Resource]*PKIFile),
 		ResourceOfPath:  make(map[*PKIFile]*Resource),
 		Explored:        make(map[string]bool),
 		ToExploreUnique: make(map[string]bool),
+		references:      make(map[fileReference]bool),
 		Errors:          make(chan error, 50),
 		StrictManifests: true,
 		StrictHash:      true,
@@ -133,13 +153,17 @@ func (sm *SimpleManager) reportErrorFile(err error, file *PKIFile, seek *SeekFil
 func (sm *SimpleManager) PutFiles(fileList []*PKIFile) {
 	for _, file := range fileList {
 		path := file.ComputePath()
-		_, ok1 := sm.Explored[path]
-		_, ok2 := sm.ToExploreUnique[path]
-		if ok1 || ok2 {
+		ref := newFileReference(file)
+		_, known := sm.references[ref]
+		if ref.parent == nil && (sm.Explored[path] || sm.ToExploreUnique[path]) {
+			known = true
+		}
+		if known {
 			if sm.Log != nil {
 				sm.Log.Debugf("Skipping %v, already been explored", path)
 			}
 		} else {
+			sm.references[ref] = false
 			sm.ToExploreUnique[path] = true
 			sm.ToExplore = append(sm.ToExplore, file)
 		}
@@ -160,9 +184,9 @@ func (sm *SimpleManager) GetNextExplore() (*PKIFile, bool, error) {
 }
 
 func (sm *SimpleManager) GetNextFile(curExplore *PKIFile) (*SeekFile, error) {
-	path := curExplore.ComputePath()
-	if _, ok := sm.Explored[path]; ok {
-		return nil, errors.New(fmt.Sprintf("File %v already explored", path))
+	ref := newFileReference(curExplore)
+	if sm.references[ref] || (ref.parent == nil && sm.Explored[ref.path]) {
+		return nil, errors.New(fmt.Sprintf("File %v already explored", ref.path))
 	}
 
 	if sm.FileSeeker != nil {
@@ -203,6 +227,9 @@ type Validator struct {
 	// Key by path
 	ObjectsPath map[string]*Resource
 
+	// Key by file
+	ObjectsFile map[*PKIFile]*Resource
+
 	CertsSerial map[string]*Resource
 	Revoked     map[string]bool
 
@@ -234,6 +261,8 @@ func NewValidator() *Validator {
 
 		ObjectsPath: make(map[string]*Resource),
 
+		ObjectsFile: make(map[*PKIFile]*Resource),
+
 		CertsSerial: make(map[string]*Resource),
 		Revoked:     make(map[string]bool),
 
@@ -318,6 +347,10 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 			}
 		}
 
+		if err := v.checkIssuer(pkifile, cert); err != nil {
+			return false, nil, nil, err
+		}
+
 		valid, pathCert, res, err := v.AddCert(cert, pkifile.Trust)
 		if talComp, ok := v.TALs[pkifile.Path]; ok && valid && pkifile.Parent != nil && pkifile.Parent.Type == TYPE_TAL {
 			talComp.CertTALValid = true // indicates that we can skip downloading
@@ -332,12 +365,16 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		}
 
 		v.ObjectsPath[pkifile.Path] = res
+		v.ObjectsFile[pkifile] = res
 		return valid, pathCert, res, err
 	case TYPE_ROA:
 		roa, err := v.DecoderConfig.DecodeROA(data)
 		if err != nil {
 			return false, nil, nil, err
 		}
+		if err := v.checkIssuer(pkifile, roa.Certificate); err != nil {
+			return false, nil, nil, err
+		}
 		valid, res, err := v.AddROA(pkifile, roa)
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
@@ -345,12 +382,16 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		res.File = pkifile
 
 		v.ObjectsPath[pkifile.Path] = res
+		v.ObjectsFile[pkifile] = res
 		return valid, nil, res, err
 	case TYPE_MFT:
 		mft, err := v.DecoderConfig.DecodeManifest(data)
 		if err != nil {
 			return false, nil, nil, err
 		}
+		if err := v.checkIssuer(pkifile, mft.Certificate); err != nil {
+			return false, nil, nil, err
+		}
 		valid, pathCert, res, err := v.AddManifest(pkifile, mft)
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
@@ -362,6 +403,7 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		}
 
 		v.ObjectsPath[pkifile.Path] = res
+		v.ObjectsFile[pkifile] = res
 		return valid, pathCert, res, err
 	case TYPE_CRL:
 		// https://tools.ietf.org/html/rfc5280
@@ -382,11 +424,33 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		res.File = pkifile
 
 		v.ObjectsPath[pkifile.Path] = res
+		v.ObjectsFile[pkifile] = res
 		return valid, nil, res, err
 	}
 	return false, nil, nil, errors.New("Unknown file type")
 }
 
+// checkIssuer refuses the certificate of a file if its issuer is not the authority
+// that refers to the file: listing the objects of another authority must not keep
+// them from being added on behalf of their own authority.
+func (v *Validator) checkIssuer(pkifile *PKIFile, cert *librpki.RPKICertificate) error {
+	if pkifile.Parent == nil {
+		return nil
+	}
+	authority := v.ObjectsFile[pkifile.Parent]
+	if authority != nil && authority.Type == TYPE_MFT {
+		authority = v.ObjectsFile[pkifile.Parent.Parent]
+	}
+	if authority == nil {
+		return nil
+	}
+	issuer, ok := authority.Resource.(*librpki.RPKICertificate)
+	if ok && !bytes.Equal(issuer.Certificate.SubjectKeyId, cert.Certificate.AuthorityKeyId) {
+		return NewCertificateErrorParent(cert, issuer, errors.New("not issued by the authority that refers to it"))
+	}
+	return nil
+}
+
 // InvalidateIncomplete invalidates an authority because of its own manifest
 func (v *Validator) InvalidateIncomplete(keyid []byte) {
 	if res, ok := v.ValidObjects[string(keyid)]; ok {
@@ -455,7 +519,8 @@ func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []
 
 	res := ObjectToResource(cert)
 
-	conflict, exists := v.Objects[ski]
+	// An object that is not valid does not prevent another one from being so
+	conflict, exists := v.ValidObjects[ski]
 	if exists {
 		conflictCert, _ := conflict.Resource.(*librpki.RPKICertificate)
 		return false, nil, res, NewCertificateErrorConflict(cert, conflictCert)
@@ -853,6 +918,7 @@ func (sm *SimpleManager) InvalidateCRLParent(file *PKIFile, crlError error) {
 
 func (sm *SimpleManager) ExploreAdd(file *PKIFile, data *SeekFile, addInvalidChilds bool) {
 	sm.Explored[file.ComputePath()] = true
+	sm.references[newFileReference(file)] = true
 	valid, subFiles, res, err := sm.Validator.AddResource(file, data.Data)
 
 	if err != nil {
-- 
2.43.0


From 7e2118647085ee3307aae16e2de77bce5d9b8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 25/50] fix: fetch the snapshot again if the local copy of a
 repository is incomplete

Files below an RRDP repository may be altered by an rsync of the same
module. As the repository has nothing new, they were never restored.
---
 cmd/octorpki/octorpki.go | 54 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 3664723..56e96d5 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -227,6 +227,11 @@ type OctoRPKI struct {
 	RRDPInfo   map[string]RRDPInfo
 	RRDPInfoMu sync.RWMutex
 
+	// RRDP URLs of authorities whose manifest does not match the local copy, and
+	// the state in which the snapshot has been fetched again because of that
+	rrdpIncomplete map[string]bool
+	rrdpRefetched  map[string]RRDPInfo
+
 	// Results of the last validation, replaced along with
 	// Stable and HasPreviousStable
 	results   *validationResults
@@ -488,8 +493,16 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURLs []string, span opentracing.S
 
 	rrdpSystem := s.newRRDPSystem(path)
 
+	previous := RRDPInfo{SessionID: rrdpSystem.SessionID, Serial: rrdpSystem.Serial}
+
 	domain, _ := s.getRRDPDomain(path)
 	err := rrdpSystem.FetchRRDP(domain)
+	refetch := err == nil && s.needsSnapshot(path, previous, rrdpSystem)
+	if refetch {
+		log.Infof("RRDP %v has nothing new but the local copy is incomplete", path)
+		rrdpSystem.SessionID, rrdpSystem.Serial = "", 0
+		err = rrdpSystem.FetchRRDP(domain)
+	}
 	if err != nil {
 		s.rrdpError(rsyncURLs, path, err, rSpan, rrdpSystem)
 		return
@@ -521,6 +534,21 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURLs []string, span opentracing.S
 		SessionID: rrdpSystem.SessionID,
 		Serial:    rrdpSystem.Serial,
 	}
+	if refetch {
+		s.rrdpRefetched[path] = RRDPInfo{SessionID: rrdpSystem.SessionID, Serial: rrdpSystem.Serial}
+	}
+}
+
+// needsSnapshot returns whether the snapshot has to be fetched although the local
+// copy is supposed to be up to date: the files may have been altered since, for
+// instance by an rsync of the same module. Once per serial, the repository itself
+// may be incomplete.
+func (s *OctoRPKI) needsSnapshot(path string, previous RRDPInfo, rrdp *syncpki.RRDPSystem) bool {
+	s.RRDPInfoMu.RLock()
+	defer s.RRDPInfoMu.RUnlock()
+
+	current := RRDPInfo{SessionID: rrdp.SessionID, Serial: rrdp.Serial}
+	return s.rrdpIncomplete[path] && previous == current && s.rrdpRefetched[path] != current
 }
 
 func (s *OctoRPKI) newRRDPSystem(path string) *syncpki.RRDPSystem {
@@ -1126,6 +1154,23 @@ func authorities(validator *pki.Validator) []*pki.Resource {
 	return ret
 }
 
+// isComplete returns whether the manifest of an authority is valid, as well as
+// everything it refers to present.
+func isComplete(validator *pki.Validator, authority *pki.Resource) bool {
+	_, ski := authority.GetIdentifier()
+	if validator.ValidObjects[string(ski)] != authority {
+		return false
+	}
+	for _, child := range authority.Childs {
+		_, ski := child.GetIdentifier()
+		if child.Type == pki.TYPE_MFTCER && validator.ValidManifest[string(ski)] != nil {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *validationResults) {
 	t1 := time.Now()
 	ia := make([][]SIA, len(s.Tals))
@@ -1138,6 +1183,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *va
 
 	ctData := make([][]*pki.PKIFile, 0)
 	sources := make(map[string]map[string]bool)
+	incomplete := make(map[string]bool)
 
 	pkiManagers := make([]*pki.SimpleManager, len(s.Tals))
 	for i, tal := range s.Tals {
@@ -1204,6 +1250,9 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *va
 				sources[gnExtracted] = make(map[string]bool)
 			}
 			sources[gnExtracted][rrdpGeneralName] = true
+			if !isComplete(pkiManagers[i].Validator, pkiResource) {
+				incomplete[rrdpGeneralName] = true
+			}
 			s.CurrentRepos[gnExtracted] = time.Now()
 			if *RRDP {
 				// The same module without or with another RRDP URL has to be fetched too
@@ -1232,6 +1281,9 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) ([][]*pki.PKIFile, *va
 	}
 
 	s.setSources(sources)
+	s.RRDPInfoMu.Lock()
+	s.rrdpIncomplete = incomplete
+	s.RRDPInfoMu.Unlock()
 
 	results := newValidationResults()
 	results.InfoAuthorities = ia
@@ -1582,6 +1634,8 @@ func NewOctoRPKI(tals []*pki.PKIFile, talNames []string) *OctoRPKI {
 		Tals:                 tals,
 		TalNames:             talNames,
 		RRDPInfo:             make(map[string]RRDPInfo),
+		rrdpIncomplete:       make(map[string]bool),
+		rrdpRefetched:        make(map[string]RRDPInfo),
 		PrevRepos:            make(map[string]time.Time),
 		CurrentRepos:         make(map[string]time.Time),
 		rsyncFetchJobManager: newRsyncFetchJobManager(),
-- 
2.43.0


From 61daf7ef888ba81d74bcc7e304a4c83dce793d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 26/50] fix: replace the output file at once

A crash or an error while writing left a truncated list behind, and had
destroyed the previous one.
---
 cmd/octorpki/octorpki.go | 43 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 56e96d5..f669b1b 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1811,7 +1811,7 @@ func (s *OctoRPKI) output() error {
 	if *Output == "" {
 		fmt.Println(string(fc))
 	} else {
-		err := ioutil.WriteFile(*Output, fc, 0600)
+		err := writeOutput(*Output, fc)
 		if err != nil {
 			return fmt.Errorf("Unable to write ROA list to %q: %v", *Output, err)
 		}
@@ -1820,6 +1820,47 @@ func (s *OctoRPKI) output() error {
 	return nil
 }
 
+// writeOutput replaces a file at once: whoever reads it gets the previous or the
+// new content, whenever writing fails or is interrupted.
+func writeOutput(path string, data []byte) error {
+	info, err := os.Lstat(path)
+	if err == nil && !info.Mode().IsRegular() {
+		return ioutil.WriteFile(path, data, 0600) // a device or a link
+	}
+
+	mode := os.FileMode(0600)
+	if err == nil {
+		mode = info.Mode().Perm()
+	}
+
+	tmp, err := ioutil.TempFile(filepath.Dir(path), "."+filepath.Base(path)+".")
+	if os.IsPermission(err) {
+		return ioutil.WriteFile(path, data, 0600)
+	}
+	if err != nil {
+		return err
+	}
+
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(mode)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if errClose := tmp.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), path)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+
+	return err
+}
+
 func (s *OctoRPKI) doRRDP(span opentracing.Span) {
 	t1 := time.Now()
 	defer func() {
-- 
2.43.0


From 970950b5115f4c57b42d93f7bf820de7326bc596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 27/50] fix: explore a repository where it is stored

Without manifests, the rsync URL of the repository was used as a local
directory.
---
 sync/lib/fetch.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index be2fed2..5bd1561 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 	"strings"
 	"time"
 
@@ -118,9 +119,9 @@ func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.Seek
 
 func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore) error {
 	newPath := GetLocalPath(file.Repo, s.MapDirectory)
-	files, err := ioutil.ReadDir(file.Repo)
+	files, err := ioutil.ReadDir(newPath)
 	if err != nil {
-		return fmt.Errorf("Unable to read dir %q: %v", file.Repo, err)
+		return fmt.Errorf("Unable to read dir %q: %v", newPath, err)
 	}
 
 	for _, fileDir := range files {
@@ -128,7 +129,7 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 			continue
 		}
 
-		data, sha256, err := FetchFile(newPath+fileDir.Name(), true)
+		data, sha256, err := FetchFile(filepath.Join(newPath, fileDir.Name()), true)
 		if err != nil {
 			return fmt.Errorf("FetchFile failed: %v", err)
 		}
-- 
2.43.0


From f48e3ce0f8675291a783b2e2808831e3b7eaddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 28/50] fix: return the error of an interrupted transfer of a
 repository

Only the end of the stream tells that the repository is complete.
---
 sync/api/fetch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index bb5b14c..d43eb83 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -3,6 +3,7 @@ package cfrpki
 import (
 	"context"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"strings"
 
@@ -97,5 +98,8 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 
 		resource, err = resources.Recv()
 	}
+	if err != io.EOF {
+		return err
+	}
 	return nil
 }
-- 
2.43.0


From 9bb0e4e55e0b568f010999b94d324c8ec53efee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 29/50] fix: compare the hash of files received from the API
 with the manifest

Manifests were not checked without it: a truncated or replaced file was
accepted as long as it is signed.
---
 sync/api/fetch.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index d43eb83..01cd1e3 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -2,6 +2,7 @@ package cfrpki
 
 import (
 	"context"
+	"crypto/sha256"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -17,18 +18,25 @@ type APIFetch struct {
 }
 
 func FetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte, error) {
+	data, _, err := fetchFile(client, ctx, path)
+	return data, err
+}
+
+// fetchFile also returns the hash of the file as it has been received
+func fetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte, []byte, error) {
 	resource, err := client.GetResource(ctx, &ResourceQuery{
 		Path: path,
 	})
 
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
+	sum := sha256.Sum256(resource.Data)
 	data, err := librpki.BER2DER(resource.Data)
 	if err != nil {
-		return resource.Data, err
+		return resource.Data, sum[:], err
 	}
-	return data, err
+	return data, sum[:], err
 }
 
 func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
@@ -46,14 +54,15 @@ func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
 
 	path := file.ComputePath()
 
-	data, err := FetchFile(s.Client, s.Ctx, path)
+	data, sum, err := fetchFile(s.Client, s.Ctx, path)
 	if err != nil {
 		return nil, fmt.Errorf("FetchFile failed: %v", err)
 	}
 
 	return &pki.SeekFile{
-		File: path,
-		Data: data,
+		File:   path,
+		Data:   data,
+		Sha256: sum,
 	}, nil
 }
 
-- 
2.43.0


From 9661c476dc7edc788698b073c194bb7fa9bf9b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 30/50] fix: submit every certificate chain before exiting

The threads were stopped while chains were waiting for them.
---
 cmd/ctrpki/ctrpki.go | 43 +++++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 9cfbe10..1324f36 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -8,6 +8,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	syncpki "github.com/cloudflare/cfrpki/sync/lib"
@@ -29,20 +30,17 @@ var (
 	CertificateTransparencyThreads = flag.Int("ct.threads", 50, "Number of threads to send to the CT Log")
 )
 
-func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert, q chan bool) {
+func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert, wg *sync.WaitGroup) {
+	defer wg.Done()
+
 	log.Debugf("Starting BatchCertificateTransparency")
-	for {
-		select {
-		case msg := <-chain:
-			_, err := ctclient.AddChain(context.Background(), msg)
-			if err != nil {
-				log.Error(err)
-			}
-		case <-q:
-			log.Debugf("Closing thread")
-			return
+	for msg := range chain {
+		_, err := ctclient.AddChain(context.Background(), msg)
+		if err != nil {
+			log.Error(err)
 		}
 	}
+	log.Debugf("Closing thread")
 }
 
 func main() {
@@ -82,23 +80,16 @@ func main() {
 
 	threads := *CertificateTransparencyThreads
 
-	qList := make([]chan bool, threads)
-	dataChan := make(chan []ct.ASN1Cert, threads)
-	if threads > 0 {
-		for i := 0; i < threads; i++ {
-			q := make(chan bool)
-			qList[i] = q
-			go BatchCertificateTransparency(ctclient, dataChan, q)
-		}
+	var wg sync.WaitGroup
+	dataChan := make(chan []ct.ASN1Cert)
+	for i := 0; i < threads; i++ {
+		wg.Add(1)
+		go BatchCertificateTransparency(ctclient, dataChan, &wg)
 	}
 
-	defer func() {
-		if threads > 0 {
-			for i := 0; i < threads; i++ {
-				qList[i] <- true
-			}
-		}
-	}()
+	// Everything has to be sent before leaving
+	defer wg.Wait()
+	defer close(dataChan)
 
 	rootTALs := strings.Split(*RootTAL, ",")
 	ctData := make([][]*pki.PKIFile, 0)
-- 
2.43.0


From 8b3566993aae3bed125fe0af0d0f3e68d3185b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 31/50] fix: do not dereference files that cannot be read for
 the CT log

---
 cmd/ctrpki/ctrpki.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 1324f36..a2198ab 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -153,6 +153,15 @@ func main() {
 		for _, cert := range certs {
 			var dataBytes []byte
 			data, err := s.GetFile(cert)
+			if err != nil {
+				log.Error(err)
+				continue
+			}
+			if data == nil {
+				log.Errorf("%v is not available", cert.Path)
+				continue
+			}
+
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
@@ -164,10 +173,6 @@ func main() {
 				dataBytes = data.Data
 			}
 
-			if err != nil {
-				log.Error(err)
-				continue
-			}
 			chain = append(chain, ct.ASN1Cert{Data: dataBytes})
 		}
 
-- 
2.43.0


From 0b3d0a36786a8ba5a91e06bf858ede4f19ecb101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 32/50] fix: refuse ROAs for AS numbers that do not exist

Such numbers were published as they are, e.g. as AS-5.
---
 validator/lib/roa.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index e614a25..9a33578 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -4,6 +4,7 @@ import (
 	"encoding/asn1"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"sort"
 	"time"
@@ -219,6 +220,9 @@ func (roa *RPKIROA) ValidateIPRoaCertificate(cert *RPKICertificate) ([]*ROAEntry
 func ConvertROAEntries(roacontent ROAContent) ([]*ROAEntry, int, error) {
 	entries := make([]*ROAEntry, 0)
 	asn := roacontent.ASID
+	if asn < 0 || int64(asn) > math.MaxUint32 {
+		return entries, asn, fmt.Errorf("AS %d is not a valid AS number", asn)
+	}
 	//fmt.Printf("ROAContent %v %v AS: %v\n", len(fullbytes), err, roacontent.ASID)
 	for _, addrblock := range roacontent.IpAddrBlocks {
 		for _, addr := range addrblock.Addresses {
-- 
2.43.0


From 6b547b273e0a0140af305f4d20631dbebaf437e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 33/50] fix: limit the size of root certificates fetched over
 HTTP

As it is done for RRDP: the response has been read into memory entirely.
---
 cmd/octorpki/octorpki.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index f669b1b..c6bbc3f 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -759,7 +759,6 @@ func (s *OctoRPKI) getHTTP(uri string, tfSpan opentracing.Span, sHub *sentry.Hub
 		Category: "http",
 	}
 
-	// maybe add a limit in the client? To avoid downloading huge files (that wouldn't be certs)
 	resp, err := s.HTTPFetcher.Client.Do(req)
 	if err != nil {
 		sbc.Level = sentry.LevelError
@@ -782,7 +781,8 @@ func (s *OctoRPKI) getHTTP(uri string, tfSpan opentracing.Span, sHub *sentry.Hub
 
 	sHub.AddBreadcrumb(sbc, nil)
 
-	data, err := ioutil.ReadAll(resp.Body)
+	// Do not process huge files (that wouldn't be certs)
+	data, err := ioutil.ReadAll(http.MaxBytesReader(nil, resp.Body, syncpki.ResponseLimit))
 	tfSpan.LogKV("size", len(data))
 	if err != nil {
 		sHub.CaptureException(err)
-- 
2.43.0


From 983e58f6ccb0c6bd2c47bc91492ce9c4bf5f0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 34/50] fix: take hosts and modules only from rsync URLs

The first eight characters of the repository location of a certificate
were skipped without looking at them, so that http://h100.example/m was
fetched from rsync://100.example/m.
---
 sync/lib/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/lib/utils.go b/sync/lib/utils.go
index b488107..0d90ffd 100644
--- a/sync/lib/utils.go
+++ b/sync/lib/utils.go
@@ -22,7 +22,7 @@ type SubMap struct {
 }
 
 func ExtractRsyncDomainModule(rsync string) (string, string, error) {
-	if len(rsync) > len("rsync://") {
+	if strings.HasPrefix(rsync, RsyncProtoPrefix) {
 		rsyncDomain := strings.Split(rsync[8:], "/")
 		if len(rsyncDomain) < 2 {
 			return "", "", errors.New("rsync url does not contain module")
@@ -34,7 +34,7 @@ func ExtractRsyncDomainModule(rsync string) (string, string, error) {
 		}
 		return fmt.Sprintf("rsync://%s/%s", rsyncDomain[0], rsyncDomain[1]), fmt.Sprintf("rsync://%s/", rsyncDomain[0]), nil
 	} else {
-		return "", "", errors.New("Wrong size")
+		return "", "", errors.New("not an rsync url")
 	}
 }
 
-- 
2.43.0


From 67aa76ca612c4556df75bc54f7ff887dc997253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 35/50] fix: submit the root certificate of a chain only once

The trust anchor's certificate refers to itself as its issuer, hence it was
appended twice to every chain: CT logs refuse such chains.
---
 cmd/ctrpki/ctrpki.go     | 6 ++----
 cmd/octorpki/octorpki.go | 4 +---
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index a2198ab..14e7e3c 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -128,13 +128,11 @@ func main() {
 			curPathCT := make([]*pki.PKIFile, 1)
 			curPathCT[0] = curPath
 
-			var ok bool
-			for curAki != "" && !ok {
-				ok = skiDone[curAki]
+			for curAki != "" && !skiDone[curAki] {
 				skiDone[curAki] = true
 
 				curPath = skiToPath[curAki]
-				if curAki != "" {
+				if curPath != nil {
 					curPathCT = append(curPathCT, curPath)
 				}
 				curAki = skiToAki[curAki]
diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index c6bbc3f..736bc21 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1317,9 +1317,7 @@ func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile
 		curPathCT := make([]*pki.PKIFile, 1)
 		curPathCT[0] = curPath
 
-		var ok bool
-		for curAki != "" && !ok {
-			ok = skiDone[curAki]
+		for curAki != "" && !skiDone[curAki] {
 			skiDone[curAki] = true
 
 			curPath = skiToPath[curAki]
-- 
2.43.0


From efd0f5235b3d29e2e6e9824c5825deabd78e6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 36/50] fix: do not submit the chains of a TAL again for those
 after it

All TALs shared one validator.
---
 cmd/ctrpki/ctrpki.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 14e7e3c..c24196e 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -57,17 +57,15 @@ func main() {
 		MapDirectory: mapDir,
 	}
 
-	validator := pki.NewValidator()
-
+	var vt time.Time
 	if *ValidTime == "now" {
-		validator.Time = time.Now().UTC()
+		vt = time.Now().UTC()
 	} else if ts, err := strconv.ParseInt(*ValidTime, 10, 64); err == nil {
-		vt := time.Unix(int64(ts), 0)
+		vt = time.Unix(int64(ts), 0)
 		log.Infof("Setting time to %v (timestamp)", vt)
-		validator.Time = vt
-	} else if vt, err := time.Parse(time.RFC3339, *ValidTime); err == nil {
+	} else if vttmp, err := time.Parse(time.RFC3339, *ValidTime); err == nil {
+		vt = vttmp
 		log.Infof("Setting time to %v (RFC3339)", vt)
-		validator.Time = vt
 	}
 
 	ctclient, err := client.New(*CertificateTransparency, http.DefaultClient, jsonclient.Options{
@@ -94,6 +92,9 @@ func main() {
 	rootTALs := strings.Split(*RootTAL, ",")
 	ctData := make([][]*pki.PKIFile, 0)
 	for _, tal := range rootTALs {
+		validator := pki.NewValidator()
+		validator.Time = vt
+
 		manager := pki.NewSimpleManager()
 		manager.Validator = validator
 		manager.FileSeeker = &s
-- 
2.43.0


From 880eaeff94375c0a51d2905c11756f7c9d070000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 37/50] fix: apply the most specific directory mapping first

The files of a repository which lie in a directory of their own were looked
for in another one, depending on the iteration order of the map.
---
 sync/lib/fetch.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 5bd1561..d6f84b5 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -36,7 +37,20 @@ func (s *LocalFetch) SetRepositories(repositories map[string]time.Time) {
 func GetLocalPath(pathRep string, replace map[string]string) string {
 	sep := fmt.Sprintf("%c", os.PathSeparator)
 
-	for repKey, repVal := range replace {
+	// The most specific ones come first
+	repKeys := make([]string, 0, len(replace))
+	for repKey := range replace {
+		repKeys = append(repKeys, repKey)
+	}
+	sort.Slice(repKeys, func(i, j int) bool {
+		if len(repKeys[i]) != len(repKeys[j]) {
+			return len(repKeys[i]) > len(repKeys[j])
+		}
+		return repKeys[i] < repKeys[j]
+	})
+
+	for _, repKey := range repKeys {
+		repVal := replace[repKey]
 		if !strings.HasSuffix(repVal, sep) {
 			repVal += sep
 		}
-- 
2.43.0


From 1c4be8881479603e163bf2f98da2a3a92cb556bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 38/50] fix: explore the rest of a directory after a file that
 cannot be read

Any foreign or damaged file made all those after it disappear.
---
 sync/lib/fetch.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index d6f84b5..9a20ea0 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -138,6 +138,7 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 		return fmt.Errorf("Unable to read dir %q: %v", newPath, err)
 	}
 
+	var firstErr error
 	for _, fileDir := range files {
 		if fileDir == nil || fileDir.IsDir() {
 			continue
@@ -145,7 +146,11 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 
 		data, sha256, err := FetchFile(filepath.Join(newPath, fileDir.Name()), true)
 		if err != nil {
-			return fmt.Errorf("FetchFile failed: %v", err)
+			// The other files are not concerned
+			if firstErr == nil {
+				firstErr = fmt.Errorf("FetchFile failed: %v", err)
+			}
+			continue
 		}
 
 		fullnameSplit := strings.Split(fileDir.Name(), ".")
@@ -179,5 +184,5 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 
 	}
 
-	return nil
+	return firstErr
 }
-- 
2.43.0


From 9c11eb27236acb7665b7eae653a51ff83146f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 39/50] fix: locate files found in a directory only once

Their path contained that of the repository twice.
---
 sync/lib/fetch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 9a20ea0..d12445e 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -174,7 +174,7 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 				Parent: file,
 				Type:   extension,
 				Repo:   file.Repo,
-				Path:   file.Repo + fileDir.Name(),
+				Path:   fileDir.Name(), // in the repository of its parent
 			},
 			&pki.SeekFile{
 				File:   file.Path,
-- 
2.43.0


From 0b2b39152191021fcb5aae7e16fed6711582def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 40/50] fix: report that the output could not be written

The command ended normally although its output was cut short.
---
 cmd/localrpki/localrpki.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/localrpki/localrpki.go b/cmd/localrpki/localrpki.go
index f734efe..d63bb70 100644
--- a/cmd/localrpki/localrpki.go
+++ b/cmd/localrpki/localrpki.go
@@ -112,7 +112,7 @@ func main() {
 		}
 	}
 
-	var buf io.Writer
+	var buf io.WriteCloser
 	var err error
 	if *Output != "" {
 		buf, err = os.Create(*Output)
@@ -124,5 +124,10 @@ func main() {
 	}
 
 	enc := json.NewEncoder(buf)
-	enc.Encode(ors)
+	if err := enc.Encode(ors); err != nil {
+		log.Fatal(err)
+	}
+	if err := buf.Close(); err != nil {
+		log.Fatal(err)
+	}
 }
-- 
2.43.0


From ae43835e3f9d848a4ccf5f26a5156d944dd303cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 41/50] fix: do not submit chains with a certificate missing

A file that could not be read was left out of the chains it belongs to: the
log refuses them, or takes them for the chain of another certificate.
---
 cmd/ctrpki/ctrpki.go | 14 +++++++++++---
 cmd/octorpki/ct.go   | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index c24196e..0a730ef 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -149,23 +149,28 @@ func main() {
 	for _, certs := range ctData {
 		chain := make([]ct.ASN1Cert, 0)
 
+		// The log refuses chains with a certificate missing
+		complete := true
 		for _, cert := range certs {
 			var dataBytes []byte
 			data, err := s.GetFile(cert)
 			if err != nil {
 				log.Error(err)
-				continue
+				complete = false
+				break
 			}
 			if data == nil {
 				log.Errorf("%v is not available", cert.Path)
-				continue
+				complete = false
+				break
 			}
 
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
 					log.Error(err)
-					continue
+					complete = false
+					break
 				}
 				dataBytes = cms.SignedData.Certificates.Bytes
 			} else {
@@ -174,6 +179,9 @@ func main() {
 
 			chain = append(chain, ct.ASN1Cert{Data: dataBytes})
 		}
+		if !complete {
+			continue
+		}
 
 		if threads > 0 {
 			dataChan <- chain
diff --git a/cmd/octorpki/ct.go b/cmd/octorpki/ct.go
index e30d48c..cda9906 100644
--- a/cmd/octorpki/ct.go
+++ b/cmd/octorpki/ct.go
@@ -76,23 +76,28 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 	for _, certs := range ctData {
 		chain := make([][]byte, 0)
 
+		// The log refuses chains with a certificate missing
+		complete := true
 		for _, cert := range certs {
 			var dataBytes []byte
 			data, err := s.Fetcher.GetFile(cert)
 			if err != nil {
 				log.Error(err)
-				continue
+				complete = false
+				break
 			}
 			if data == nil {
 				log.Errorf("%v is not available anymore", cert.Path)
-				continue
+				complete = false
+				break
 			}
 
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
 					log.Error(err)
-					continue
+					complete = false
+					break
 				}
 				dataBytes = cms.SignedData.Certificates.Bytes
 			} else {
@@ -101,6 +106,9 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 
 			chain = append(chain, dataBytes)
 		}
+		if !complete {
+			continue
+		}
 
 		dataChan <- &ct.AddChainRequest{
 			Chain: chain,
-- 
2.43.0


From 50cc83ca0c2caabe2721261bbaeb51259b3b7e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 42/50] fix: compare the issuer of objects found without a
 manifest too

---
 validator/pki/pki.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 965be70..93e039d 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -437,10 +437,11 @@ func (v *Validator) checkIssuer(pkifile *PKIFile, cert *librpki.RPKICertificate)
 	if pkifile.Parent == nil {
 		return nil
 	}
-	authority := v.ObjectsFile[pkifile.Parent]
-	if authority != nil && authority.Type == TYPE_MFT {
-		authority = v.ObjectsFile[pkifile.Parent.Parent]
+	referrer := pkifile.Parent
+	if referrer.Type == TYPE_MFT { // explored or not
+		referrer = referrer.Parent
 	}
+	authority := v.ObjectsFile[referrer]
 	if authority == nil {
 		return nil
 	}
-- 
2.43.0


From aedb2ddd2df47b8eb8b4717c0c28ba9501e28096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 43/50] fix: compare the issuer of what a manifest found
 without a manifest lists

---
 validator/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 93e039d..4c95a41 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -438,7 +438,7 @@ func (v *Validator) checkIssuer(pkifile *PKIFile, cert *librpki.RPKICertificate)
 		return nil
 	}
 	referrer := pkifile.Parent
-	if referrer.Type == TYPE_MFT { // explored or not
+	for referrer != nil && referrer.Type == TYPE_MFT { // explored or not, or found without a manifest itself
 		referrer = referrer.Parent
 	}
 	authority := v.ObjectsFile[referrer]
-- 
2.43.0


From 95e2a0b926edaf23c199cd7be203577234f21658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 44/50] fix: keep IPv4-mapped IPv6 prefixes apart in origin
 validation

---
 ov/ov.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ov/ov.go b/ov/ov.go
index 8206b67..2d3912c 100644
--- a/ov/ov.go
+++ b/ov/ov.go
@@ -41,13 +41,23 @@ type OriginValidator struct {
 	t6  *int64_tree.TreeV6
 }
 
+// parsePrefix keeps IPv4-mapped IPv6 prefixes apart from IPv4 ones
+func parsePrefix(prefix *net.IPNet) (*patricia.IPv4Address, *patricia.IPv6Address, error) {
+	if prefix != nil && len(prefix.IP) == net.IPv6len && len(prefix.Mask) == net.IPv6len {
+		length, _ := prefix.Mask.Size()
+		ip6 := patricia.NewIPv6Address(prefix.IP, uint(length))
+		return nil, &ip6, nil
+	}
+	return patricia.ParseFromIPAddr(prefix)
+}
+
 // vrp: Validated ROA Payload https://tools.ietf.org/html/rfc6811
 func NewOV(vrp []AbstractROA) *OriginValidator {
 	t4 := int64_tree.NewTreeV4()
 	t6 := int64_tree.NewTreeV6()
 
 	for i, r := range vrp {
-		ip4, ip6, _ := patricia.ParseFromIPAddr(r.GetPrefix())
+		ip4, ip6, _ := parsePrefix(r.GetPrefix())
 		if ip4 != nil {
 			t4.Add(*ip4, int64(i), nil)
 		} else if ip6 != nil {
@@ -82,7 +92,7 @@ func (cv *curValidation) Filter(payload int64) bool {
 
 func (ov *OriginValidator) Validate(route AbstractRoute) ([]AbstractROA, int, error) {
 	matching := make([]AbstractROA, 0)
-	ip4, ip6, err := patricia.ParseFromIPAddr(route.GetPrefix())
+	ip4, ip6, err := parsePrefix(route.GetPrefix())
 
 	if err != nil {
 		return matching, STATE_UNKNOWN, err
-- 
2.43.0


From 5b1656a83b0c019f18cd7d7ad7cce80875ebc75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 45/50] fix: keep IPv4-mapped IPv6 addresses apart from IPv4
 ones in certificates

---
 validator/lib/cert.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 526d710..b8af017 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -49,7 +49,13 @@ func (ipn *IPNet) String() string {
 }
 
 func (ipn *IPNet) IsIPInRange(ip net.IP) (bool, bool) {
-	return ipn.IPNet.Contains(ip), false
+	// net.IPNet.Contains takes an IPv4-mapped IPv6 address for an IPv4 one:
+	// in a certificate the two are different resources.
+	err, min, max := GetRangeIP(ipn.IPNet)
+	if err != nil {
+		return false, false
+	}
+	return (&IPAddressRange{Min: min, Max: max}).IsIPInRange(ip)
 }
 
 func (ipn *IPNet) GetAfi() uint8 {
@@ -149,9 +155,9 @@ func (ipan *IPAddressNull) String() string {
 }
 
 func (ipan *IPAddressNull) IsIPInRange(ip net.IP) (bool, bool) {
-	if ipan.GetAfi() == 1 && ip.To4() != nil {
+	if ipan.GetAfi() == 1 && len(ip) == net.IPv4len {
 		return false, true
-	} else if ipan.GetAfi() == 2 && ip.To4() == nil && ip.To16() != nil {
+	} else if ipan.GetAfi() == 2 && len(ip) == net.IPv6len {
 		return false, true
 	}
 	return false, false
-- 
2.43.0


From ea6370092cb5e6a46d19e5974f7a4aab81302407 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 02:03:53 +0000
Subject: [PATCH 46/50] fix: accept files of other kinds that are not encoded
 on a manifest

---
 sync/lib/fetch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index d12445e..5b84d45 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -100,7 +100,8 @@ func ParseMapDirectory(mapdir string) map[string]string {
 }
 
 func (s *LocalFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
-	return s.GetFileConv(file, file.Type != pki.TYPE_TAL)
+	// Only objects are encoded, any other file can be listed by a manifest
+	return s.GetFileConv(file, file.Type != pki.TYPE_TAL && file.Type != pki.TYPE_UNKNOWN)
 }
 
 func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.SeekFile, error) {
-- 
2.43.0


From a194eaac3b38929c975208db57306118b50d44b9 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 47/50] fix: API source accepts files of other kinds that are
 not encoded on a manifest

---
 sync/api/fetch.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index 01cd1e3..e4ffb21 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -18,12 +18,12 @@ type APIFetch struct {
 }
 
 func FetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte, error) {
-	data, _, err := fetchFile(client, ctx, path)
+	data, _, err := fetchFile(client, ctx, path, true)
 	return data, err
 }
 
 // fetchFile also returns the hash of the file as it has been received
-func fetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte, []byte, error) {
+func fetchFile(client RPKIAPIClient, ctx context.Context, path string, derEncoding bool) ([]byte, []byte, error) {
 	resource, err := client.GetResource(ctx, &ResourceQuery{
 		Path: path,
 	})
@@ -32,6 +32,9 @@ func fetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte,
 		return nil, nil, err
 	}
 	sum := sha256.Sum256(resource.Data)
+	if !derEncoding {
+		return resource.Data, sum[:], nil
+	}
 	data, err := librpki.BER2DER(resource.Data)
 	if err != nil {
 		return resource.Data, sum[:], err
@@ -54,7 +57,8 @@ func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
 
 	path := file.ComputePath()
 
-	data, sum, err := fetchFile(s.Client, s.Ctx, path)
+	// Only objects are encoded, any other file can be listed by a manifest
+	data, sum, err := fetchFile(s.Client, s.Ctx, path, file.Type != pki.TYPE_UNKNOWN)
 	if err != nil {
 		return nil, fmt.Errorf("FetchFile failed: %v", err)
 	}
-- 
2.43.0


From 74ac70ff8200e54e2f1abf9f4a8648e4f1badb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 48/50] fix: a damaged ROA or manifest does not hide an intact
 copy of it

---
 validator/pki/pki.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 4c95a41..9732cbf 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -651,6 +651,7 @@ func (v *Validator) AddROA(pkifile *PKIFile, roa *librpki.RPKIROA) (bool, *Resou
 	}
 	res.File = pkifile
 	res.Type = TYPE_ROACER
+	validCert := valid
 
 	errValidity := v.ValidateROA(roa)
 	if errValidity != nil {
@@ -672,6 +673,8 @@ func (v *Validator) AddROA(pkifile *PKIFile, roa *librpki.RPKIROA) (bool, *Resou
 
 	if valid {
 		v.ValidROA[string(key)] = res_roa
+	} else if validCert {
+		v.InvalidateObject(key) // does not prevent an intact copy from being valid
 	}
 	v.ROA[string(key)] = res_roa
 
@@ -704,6 +707,7 @@ func (v *Validator) AddManifest(pkifile *PKIFile, mft *librpki.RPKIManifest) (bo
 	}
 	res.File = pkifile
 	res.Type = TYPE_MFTCER
+	validCert := valid
 
 	if !mft.InnerValid {
 		valid = false
@@ -718,6 +722,8 @@ func (v *Validator) AddManifest(pkifile *PKIFile, mft *librpki.RPKIManifest) (bo
 	key := mft.Certificate.Certificate.SubjectKeyId
 	if valid {
 		v.ValidManifest[string(key)] = res_mft
+	} else if validCert {
+		v.InvalidateObject(key) // does not prevent an intact copy from being valid
 	}
 	v.Manifest[string(key)] = res_mft
 
-- 
2.43.0


From 6cd78cbc1bd73a3bd35ed19874366ec6553b0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:28 +0000
Subject: [PATCH 49/50] fix: the signature of a signed object is compared as a
 whole

---
 validator/lib/cms.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index 8cb2f1e..6de3b6d 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -370,12 +370,9 @@ func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
 		return errors.New("Public key is not RSA")
 	}
 
-	decryptedHash, err := DecryptSignatureRSA(cms.SignedData.SignerInfos[0].Signature, pubKey)
+	err = rsa.VerifyPKCS1v15(pubKey, crypto.SHA256, signedAttributesHash, cms.SignedData.SignerInfos[0].Signature)
 	if err != nil {
-		return errors.New(fmt.Sprintf("CMS signature decoding error: %v", err))
-	}
-	if !bytes.Equal(signedAttributesHash, decryptedHash) {
-		return errors.New(fmt.Sprintf("CMS encrypted digest (%x) and calculated digest (%x) are different", decryptedHash, signedAttributesHash))
+		return errors.New(fmt.Sprintf("CMS signature of digest (%x) is not valid: %v", signedAttributesHash, err))
 	}
 
 	return nil
-- 
2.43.0


From dceb31cb8346167504539a67e4ac34e0649909da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:07 +0000
Subject: [PATCH 50/50] fix: a snapshot that is fetched again is fetched as a
 whole, whenever the process ends

The state file kept the serial while the snapshot overwrote the local copy. A process
that ended meanwhile went on with deltas from that serial and left the file that was
being written as it was, truncated.
---
 cmd/octorpki/octorpki.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 736bc21..ac85777 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -226,6 +226,7 @@ type OctoRPKI struct {
 
 	RRDPInfo   map[string]RRDPInfo
 	RRDPInfoMu sync.RWMutex
+	rrdpFileMu sync.Mutex
 
 	// RRDP URLs of authorities whose manifest does not match the local copy, and
 	// the state in which the snapshot has been fetched again because of that
@@ -466,6 +467,23 @@ func (s *OctoRPKI) deleteRRDPInfo(path string) {
 	delete(s.RRDPInfo, path)
 }
 
+// forgetRRDPInfo lets a process that starts while the snapshot is being written
+// fetch all of it, the files would not be those of any serial
+func (s *OctoRPKI) forgetRRDPInfo(path string) {
+	s.deleteRRDPInfo(path)
+	if *RRDPFile == "" {
+		return
+	}
+
+	s.rrdpFileMu.Lock()
+	defer s.rrdpFileMu.Unlock()
+
+	err := s.saveRRDPInfo(*RRDPFile)
+	if err != nil {
+		sentry.CaptureException(err)
+	}
+}
+
 func (s *OctoRPKI) mainRRDP(pSpan opentracing.Span) {
 	span := s.tracer.StartSpan("rrdp", opentracing.ChildOf(pSpan.Context()))
 	defer span.Finish()
@@ -500,6 +518,7 @@ func (s *OctoRPKI) fetchRRDP(path string, rsyncURLs []string, span opentracing.S
 	refetch := err == nil && s.needsSnapshot(path, previous, rrdpSystem)
 	if refetch {
 		log.Infof("RRDP %v has nothing new but the local copy is incomplete", path)
+		s.forgetRRDPInfo(path)
 		rrdpSystem.SessionID, rrdpSystem.Serial = "", 0
 		err = rrdpSystem.FetchRRDP(domain)
 	}
-- 
2.43.0

