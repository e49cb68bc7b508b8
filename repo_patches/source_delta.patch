From 6d2c00d07dd5ecf92bbe2ebae51bcb3e3e96a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:55 +0000
Subject: [PATCH 01/16] fix: anchor every scheme alternative when checking
 bracket links

---
 pkg/burl_links/extract_org.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 4704425..bb5f0e9 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -32,7 +32,7 @@ var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?$`)
 // https://datatracker.ietf.org/doc/html/rfc2392.html
 var SchemeVariants []string = []string{"doi", "https?", "mid"}
 var reSchemeStr = MakeSchemeReStr(SchemeVariants)
-var reScheme = regexp.MustCompile("^" + reSchemeStr + ":")
+var reScheme = regexp.MustCompile("^(?:" + reSchemeStr + "):")
 var reBracketStr = "\\[\\[((?:[^\\]\\[]|\\\\(?:\\\\\\\\)*[\\]\\[]|\\\\+[^\\]\\[])+)](?:\\[((?:.|\n)+?)\\])?\\]"
 var reAngleSuffixStr = "[^>\n]*(?:\n[ \t]*[^> \t\n][^> \n]*)*"
 var rePlainSuffixStr = "(?:[^][ \t\n(\\)<>]|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))+(?:[^[:punct:] \t\n]|/|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))"
@@ -64,7 +64,7 @@ func UpdateRe(schemeVariants []string) error {
 	if schemeStr == "" {
 		return errors.New("No scheme variants")
 	}
-	reSchemeTmp, err := regexp.Compile("^" + schemeStr + ":")
+	reSchemeTmp, err := regexp.Compile("^(?:" + schemeStr + "):")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From bff20f0b9bee3c51d98d49b223244486ed1a48d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:56 +0000
Subject: [PATCH 02/16] fix: use URL variants in burl_tool query filter

---
 cmd/burl_tool/burl_tool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index d5638ab..6de4dec 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -63,7 +63,7 @@ func mainWithGracefulShutdown() error {
 	nextArg := 0
 	variants := make([]string, 0, 8)
 	if len(set) == 0 {
-		burl_url.UrlVariants(flag.Arg(0))
+		variants = append(variants, burl_url.UrlVariants(flag.Arg(0))...)
 		nextArg = 1
 	}
 	queryIsEmpty := len(variants) == 0
-- 
2.43.0


From c097f39b1351e6151ad44af4f70b925d92be6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:57 +0000
Subject: [PATCH 03/16] fix: do not share emacsclient argument array between
 requests

---
 pkg/burl_emacs/emacs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_emacs/emacs.go b/pkg/burl_emacs/emacs.go
index 6c79539..f458767 100644
--- a/pkg/burl_emacs/emacs.go
+++ b/pkg/burl_emacs/emacs.go
@@ -57,7 +57,10 @@ var EnsureFrameLisp = `
 var EmacsServerNotFoundError = errors.New("Emacs server is not running, please, start it")
 
 func execEmacs(args ...string) ([]byte, error) {
-	allArgs := append(UserArgs, Args...)
+	// Do not append to UserArgs, its backing array is shared by concurrent requests.
+	allArgs := make([]string, 0, len(UserArgs)+len(Args)+len(args))
+	allArgs = append(allArgs, UserArgs...)
+	allArgs = append(allArgs, Args...)
 	allArgs = append(allArgs, args...)
 	cmd := exec.Command(Command, allArgs...)
 	out, err := cmd.CombinedOutput()
-- 
2.43.0


From c324743a731ee17656b023442d31e05de04afd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:59 +0000
Subject: [PATCH 04/16] fix: do not revive stale org headings when a level is
 skipped

---
 pkg/burl_links/extract_org.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index bb5f0e9..8e9efa4 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -141,7 +141,9 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 			if level > cap(headings) {
 				level = cap(headings) - 1
 			}
-			headings = headings[0 : level-1]
+			if len(headings) > level-1 {
+				headings = headings[0 : level-1]
+			}
 			if len(treeNodes) >= level {
 				treeNodes = treeNodes[0:level]
 			}
-- 
2.43.0


From bec1af1ab24bc55bed8e865d4b8fd1f7428f05d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:00 +0000
Subject: [PATCH 05/16] fix: do not add tree nodes for skipped org heading
 levels

---
 pkg/burl_links/extract_org.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 8e9efa4..76d3e9d 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -158,6 +158,10 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 				if link := OrgLinkMatchIsUrl(match); link != nil &&
 					(filter == nil || filter(link)) {
 					for i := len(treeNodes) - 1; i < len(headings); i++ {
+						if headings[i] == nil { // skipped level
+							treeNodes = append(treeNodes, treeNodes[i])
+							continue
+						}
 						newNode := NewTreeChildrenNode(headings[i])
 						treeNodes = append(treeNodes, &newNode)
 						treeNodes[i].AddChild(&newNode)
-- 
2.43.0


From e5471e1e2f58da05608570627d3c8fc244ada98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:28 +0000
Subject: [PATCH 06/16] fix: do not crash on out of range countLimit

---
 pkg/burl_links/node_count.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/burl_links/node_count.go b/pkg/burl_links/node_count.go
index 2d23fe1..5fe24ad 100644
--- a/pkg/burl_links/node_count.go
+++ b/pkg/burl_links/node_count.go
@@ -168,6 +168,12 @@ func CountDescendants(inputTree TreeBaseNode, filter Filter) *LimitCountNode {
 }
 
 func FilterChildrenCount(tree *LimitCountNode, target int) *LimitCountNode {
+	// Arbitrary value may be received from a client.
+	if target < 0 {
+		target = 0
+	} else if target > tree.Attrs.Count {
+		target = tree.Attrs.Count
+	}
 	tree.Attrs.TargetCount = target
 	queue := NewDepthFirstQueue(tree)
 	for !queue.Empty() {
-- 
2.43.0


From 7740cfe59d58c68e3b8d46dfb03290a3c08e86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:29 +0000
Subject: [PATCH 07/16] fix: compare helper with empty or 4096 bytes long
 existing file

---
 pkg/burl_fileutil/fileutil.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 7e6ac0d..b6dda3e 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -55,7 +56,8 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 	stat, err := os.Stat(path)
 	if !errors.Is(err, os.ErrNotExist) {
 		bufLen := 4096
-		if len(content) > bufLen {
+		// Must be larger than content to notice that the file is longer.
+		if len(content) >= bufLen {
 			bufLen += len(content)
 		}
 		data := make([]byte, bufLen)
@@ -65,7 +67,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		defer file.Close()
 		count, err := file.Read(data)
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return fmt.Errorf("%w: failed to read existing file", err)
 		}
 		if !force {
-- 
2.43.0


From 7adc11ad57bc0a6e28f08141f36589e43a652d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:30 +0000
Subject: [PATCH 08/16] fix: sync log file before closing it

---
 cmd/burl_backend/burl_backend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/burl_backend/burl_backend.go b/cmd/burl_backend/burl_backend.go
index a0d358c..8d42438 100644
--- a/cmd/burl_backend/burl_backend.go
+++ b/cmd/burl_backend/burl_backend.go
@@ -302,8 +302,8 @@ func mainWithGracefulShutdown() error {
 		if err != nil {
 			return fmt.Errorf("open log: %w", err)
 		}
-		defer logFile.Sync()
 		defer logFile.Close()
+		defer logFile.Sync()
 		log.SetOutput(logFile)
 	}
 
-- 
2.43.0


From 261acfa45d552b984b362b47d786cfa20331677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:31 +0000
Subject: [PATCH 09/16] fix: register link source flags in the requested flag
 set

---
 pkg/burl_links/flag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_links/flag.go b/pkg/burl_links/flag.go
index a68cb56..abd3107 100644
--- a/pkg/burl_links/flag.go
+++ b/pkg/burl_links/flag.go
@@ -54,11 +54,11 @@ func AddSourceFlags(slice *MixedSrcTypeSlice, flagSet *flag.FlagSet) {
 		slice = &MixedSrcNames
 	}
 
-	flag.Var(NewMixedSrcTypeProxyPtr(
+	flagSet.Var(NewMixedSrcTypeProxyPtr(
 		slice,
 		func(value string) TextLinkSource { return TxtLinkSource(value) }),
 		"txt", "Process `FILE` as plain text file (multiple)")
-	flag.Var(NewMixedSrcTypeProxyPtr(
+	flagSet.Var(NewMixedSrcTypeProxyPtr(
 		slice,
 		func(value string) TextLinkSource { return OrgLinkSource(value) }),
 		OrgLinkSource("").Flag(), "Process `FILE` as Emacs Org Mode file (multiple)")
-- 
2.43.0


From efebc4eb1ca56413760198481e8ac82f86f7e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:47 +0000
Subject: [PATCH 10/16] fix: quote wrapper arguments in a way understood by
 POSIX sh

---
 pkg/burl_fileutil/escape_printf.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/burl_fileutil/escape_printf.go b/pkg/burl_fileutil/escape_printf.go
index ce2f0d7..f1e2709 100644
--- a/pkg/burl_fileutil/escape_printf.go
+++ b/pkg/burl_fileutil/escape_printf.go
@@ -17,10 +17,9 @@
 
 package burl_fileutil
 
-import "os/exec"
+import "strings"
 
-// TODO avoid printf external process
+// Result of "printf %q" may contain $'...' not recognized by POSIX sh.
 func EscapeShellArg(arg string) (string, error) {
-	out, err := exec.Command("/usr/bin/printf", "%q", arg).Output()
-	return string(out), err
+	return "'" + strings.ReplaceAll(arg, "'", `'\''`) + "'", nil
 }
-- 
2.43.0


From 270f293b778fe1a0359357cfe2d969e81be63995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:48 +0000
Subject: [PATCH 11/16] fix: drop partially encoded message when codec fails

---
 pkg/webextensions/client.go | 1 +
 pkg/webextensions/server.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/webextensions/client.go b/pkg/webextensions/client.go
index 543b5b9..3674c29 100644
--- a/pkg/webextensions/client.go
+++ b/pkg/webextensions/client.go
@@ -33,6 +33,7 @@ var _ rpc.ClientCodec = (*clientCodec)(nil)
 
 func (c *clientCodec) WriteRequest(r *rpc.Request, param interface{}) error {
 	if err := c.ClientCodec.WriteRequest(r, param); err != nil {
+		c.Framer.Discard()
 		return err
 	}
 	return c.Framer.WriteFrame()
diff --git a/pkg/webextensions/server.go b/pkg/webextensions/server.go
index c2de1e6..7b65393 100644
--- a/pkg/webextensions/server.go
+++ b/pkg/webextensions/server.go
@@ -43,6 +43,7 @@ func (c *serverCodec) ReadRequestHeader(r *rpc.Request) error {
 
 func (c *serverCodec) WriteResponse(r *rpc.Response, x interface{}) error {
 	if err := c.ServerCodec.WriteResponse(r, x); err != nil {
+		c.Framer.Discard()
 		return err
 	}
 	if err := c.Framer.WriteFrame(); err != nil {
-- 
2.43.0


From b58d0982d60ebe7d1588548164ea9c949da79cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:49 +0000
Subject: [PATCH 12/16] fix: skip unread rest of the frame before reading the
 next one

---
 pkg/webextensions/frame.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/webextensions/frame.go b/pkg/webextensions/frame.go
index 41cb0a0..76ec28e 100644
--- a/pkg/webextensions/frame.go
+++ b/pkg/webextensions/frame.go
@@ -20,6 +20,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"io/ioutil"
 )
 
 // Do not know if it may happen
@@ -55,8 +56,14 @@ func NewFrameLimitedReader(reader io.ReadCloser) FrameReader {
 
 func (r *FrameLimitedReader) ReadHeader() error {
 	if r.LimitedReader.N != 0 {
-		// TODO maybe just discard
-		return ErrReadBody
+		// Decoder stops just after the message, so e.g. trailing newline
+		// may remain in the frame.
+		if _, err := io.Copy(ioutil.Discard, r); err != nil {
+			return err
+		}
+		if r.LimitedReader.N != 0 {
+			return ErrReadBody
+		}
 	}
 	r.LimitedReader.N = 4
 	var size uint32
-- 
2.43.0


From 41b058dff08b3ce92df9897faebd19e395cf5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:38 +0000
Subject: [PATCH 13/16] fix: reject wrong linkSet prefixes even without source
 files

---
 pkg/burl_links/link_source.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/burl_links/link_source.go b/pkg/burl_links/link_source.go
index 85ecc20..b8f61cd 100644
--- a/pkg/burl_links/link_source.go
+++ b/pkg/burl_links/link_source.go
@@ -78,6 +78,10 @@ func ExtractLinksFromFileGroup(list []TextLinkSource, filter Filter) (*TreeChild
 }
 
 func ExtractLinkSetFromFileGroup(list []TextLinkSource, filters []string) (map[string]bool, error) {
+	// Do not accept wrong filters even if there are no files.
+	if _, err := MakeLinkSetBase(filters); err != nil {
+		return nil, err
+	}
 	result := map[string]bool{}
 	var err error
 	for _, src := range list {
-- 
2.43.0


From ce57f64363beba890b64c6b842552b3f38ddcf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:18 +0000
Subject: [PATCH 14/16] fix: add missing owner permissions to an up to date
 helper

---
 pkg/burl_fileutil/fileutil.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index b6dda3e..16668a4 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -81,8 +81,8 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		if bytes.Equal(data[:count], content) {
 			perm := stat.Mode().Perm()
-			if (mode&0500) != 0 && (perm&0500) == 0 {
-				if err := os.Chmod(path, perm|0500); err != nil {
+			if required := mode & 0500; perm&required != required {
+				if err := os.Chmod(path, perm|required); err != nil {
 					return fmt.Errorf("set exec permission: %w", err)
 				}
 			}
-- 
2.43.0


From bada19e94a013ff8785447dd6830d310411a4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:31 +0000
Subject: [PATCH 15/16] fix: do not misplace org headings deeper than 10 levels

---
 pkg/burl_links/extract_org.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 76d3e9d..f1f190c 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -138,9 +138,6 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 		lineNo++
 		if matchHeading := reHeading.FindStringSubmatch(line); matchHeading != nil {
 			level := len(matchHeading[1])
-			if level > cap(headings) {
-				level = cap(headings) - 1
-			}
 			if len(headings) > level-1 {
 				headings = headings[0 : level-1]
 			}
-- 
2.43.0


From 404db0d2208a806055f9d780c5786311fa2bada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:42 +0000
Subject: [PATCH 16/16] fix: add missing trailing slash to chrome extension
 origins

---
 cmd/burl_backend/install.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cmd/burl_backend/install.go b/cmd/burl_backend/install.go
index c4a1e1d..10f3ae8 100644
--- a/cmd/burl_backend/install.go
+++ b/cmd/burl_backend/install.go
@@ -179,11 +179,8 @@ printf '%%s' "$err"
 		}
 		origins := make([]string, len(installOptions.ChromeExtensionID))
 		for i, id := range installOptions.ChromeExtensionID {
-			if strings.HasPrefix(id, "chrome-extension://") {
-				origins[i] = id
-			} else {
-				origins[i] = fmt.Sprintf("chrome-extension://%s/", id)
-			}
+			id = strings.TrimSuffix(strings.TrimPrefix(id, "chrome-extension://"), "/")
+			origins[i] = fmt.Sprintf("chrome-extension://%s/", id)
 		}
 		m := webextensions.Manifest{
 			Name:           name,
-- 
2.43.0

