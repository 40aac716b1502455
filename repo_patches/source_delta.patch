From 01a4edcf455fb6d0f1afb3a1992eaefc4720ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:19 +0000
Subject: [PATCH 01/28] fix: do not allocate a decoded field list from the
 received count alone

A state message of a few bytes can announce any number of struct children (or
up to 2^32-1 fields): make() then panics or exhausts memory before a single
field was received. Grow the list as the fields arrive instead.
---
 lens/astsrv.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 076bfaf..4460626 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -233,6 +233,9 @@ func (s *astServer) handleEventError(w http.ResponseWriter, r *http.Request) {
 	w.WriteHeader(http.StatusOK)
 }
 
+// lensReaderMaxPrealloc limits how many fields are allocated based only on a received count.
+const lensReaderMaxPrealloc = 1024
+
 type lensReader struct {
 	r           io.Reader
 	buf         [8]byte // reused for all primitive reads
@@ -362,11 +365,18 @@ func (lr *lensReader) readFields() ([]LensMonitorField, error) {
 	} else if count > math.MaxUint32 {
 		return nil, fmt.Errorf("field count %d exceeds maximum", count)
 	}
-	fields := make([]LensMonitorField, count)
+	return lr.readFieldList(count)
+}
+
+// readFieldList reads count fields. The count is not trusted for the allocation, the list grows as fields are received.
+func (lr *lensReader) readFieldList(count uint64) ([]LensMonitorField, error) {
+	fields := make([]LensMonitorField, 0, min(count, lensReaderMaxPrealloc))
 	for i := uint64(0); i < count; i++ {
-		if err := lr.readField(&fields[i]); err != nil {
+		var field LensMonitorField
+		if err := lr.readField(&field); err != nil {
 			return nil, err
 		}
+		fields = append(fields, field)
 	}
 	return fields, nil
 }
@@ -477,11 +487,9 @@ func (lr *lensReader) readValue() (interface{}, []LensMonitorField, error) {
 		if err != nil {
 			return nil, nil, err
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
+		children, err := lr.readFieldList(count)
+		if err != nil {
+			return nil, nil, err
 		}
 		return nil, children, nil
 	default:
-- 
2.43.0


From b8af0fccfc119c50234202ed2dba6b2dd1a3f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:26 +0000
Subject: [PATCH 02/28] fix: do not allocate a decoded string from the received
 length alone

A message of a few bytes can announce a 4 GiB string, which was allocated
before any of it was received. Grow the buffer with the data instead.
---
 lens/astsrv.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 4460626..9d852d9 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -1,6 +1,7 @@
 package lens
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -236,6 +237,9 @@ func (s *astServer) handleEventError(w http.ResponseWriter, r *http.Request) {
 // lensReaderMaxPrealloc limits how many fields are allocated based only on a received count.
 const lensReaderMaxPrealloc = 1024
 
+// lensReaderMaxRawPrealloc limits how many bytes are allocated based only on a received length.
+const lensReaderMaxRawPrealloc = 64 * 1024
+
 type lensReader struct {
 	r           io.Reader
 	buf         [8]byte // reused for all primitive reads
@@ -567,14 +571,30 @@ func (lr *lensReader) readString() (string, error) {
 	} else if length > math.MaxUint32 {
 		return "", fmt.Errorf("string length %d exceeds maximum %d", length, math.MaxUint32)
 	}
-	buf := make([]byte, length)
-	if _, err := io.ReadFull(lr.r, buf); err != nil {
+	buf, err := lr.readRaw(length)
+	if err != nil {
 		return "", err
 	}
 	// Zero-copy string conversion - safe because buf is not reused after this
 	return unsafe.String(&buf[0], len(buf)), nil
 }
 
+// readRaw reads exactly length bytes. Large lengths are not trusted for the allocation, the buffer grows as data is received.
+func (lr *lensReader) readRaw(length uint64) ([]byte, error) {
+	if length <= lensReaderMaxRawPrealloc {
+		buf := make([]byte, length)
+		_, err := io.ReadFull(lr.r, buf)
+		return buf, err
+	}
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, lr.r, int64(length)); errors.Is(err, io.EOF) {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 func (lr *lensReader) readBytes() ([]byte, error) {
 	length, err := lr.readVarint()
 	if err != nil {
-- 
2.43.0


From faa4ebd195398bcd3bd767585574b7f7aa120961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:30 +0000
Subject: [PATCH 03/28] fix: limit the nesting of received fields

A few MB of nested one-element containers made the decoder recurse until the
Go stack limit, which ends the process (not recoverable).
---
 lens/astsrv.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 9d852d9..2760e4f 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -240,10 +240,15 @@ const lensReaderMaxPrealloc = 1024
 // lensReaderMaxRawPrealloc limits how many bytes are allocated based only on a received length.
 const lensReaderMaxRawPrealloc = 64 * 1024
 
+// lensReaderMaxDepth limits the nesting of received fields (the client stops far earlier), nested fields are decoded
+// recursively and exhausting the stack would end the process.
+const lensReaderMaxDepth = 10000
+
 type lensReader struct {
 	r           io.Reader
 	buf         [8]byte // reused for all primitive reads
 	maxFieldLen int     // maximum length for strings and slices
+	depth       int     // current field nesting
 }
 
 func newLensReader(r io.Reader, maxFieldLen int) *lensReader {
@@ -386,6 +391,11 @@ func (lr *lensReader) readFieldList(count uint64) ([]LensMonitorField, error) {
 }
 
 func (lr *lensReader) readField(f *LensMonitorField) error {
+	if lr.depth >= lensReaderMaxDepth {
+		return fmt.Errorf("field nesting exceeds maximum %d", lensReaderMaxDepth)
+	}
+	lr.depth++
+	defer func() { lr.depth-- }()
 	var err error
 	if f.Name, err = lr.readString(); err != nil {
 		return err
-- 
2.43.0


From dbb8805611a978d45a645c76b3221e1b1cca6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:26 +0000
Subject: [PATCH 04/28] fix: remove the incomplete mutation exec script when
 building it fails

---
 lens/mutation.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 843b17f..d4ca73c 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -222,11 +222,17 @@ case $GOMUTESTING_RESULT in
 	;;
 esac`
 
-func buildExecSelectTestsScript(fileToTests map[string][]string, packages []string) (string, error) {
+func buildExecSelectTestsScript(fileToTests map[string][]string, packages []string) (script string, err error) {
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
 	}
+	defer func() {
+		if err != nil { // don't leave an incomplete script behind
+			_ = file.Close()
+			_ = os.Remove(file.Name())
+		}
+	}()
 
 	if _, err := file.WriteString(`#!/usr/bin/env bash
 
@@ -295,7 +301,7 @@ export GOMUTESTING_RESULT=$?
 	return file.Name(), nil
 }
 
-func buildExecAllTestsScript(packages []string) (string, error) {
+func buildExecAllTestsScript(packages []string) (script string, err error) {
 	const scriptTmpl = `#!/usr/bin/env bash
 PKGS="%s"
 if [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
@@ -321,8 +327,14 @@ export GOMUTESTING_RESULT=$?
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
-	} else if _, err = fmt.Fprintf(file, scriptTmpl, strings.Join(packages, " ")); err != nil {
-		_ = file.Close()
+	}
+	defer func() {
+		if err != nil { // don't leave an incomplete script behind
+			_ = file.Close()
+			_ = os.Remove(file.Name())
+		}
+	}()
+	if _, err = fmt.Fprintf(file, scriptTmpl, strings.Join(packages, " ")); err != nil {
 		return "", err
 	} else if err = file.Close(); err != nil {
 		return "", err
-- 
2.43.0


From d2176e03efae580693fb83ea786d1e0f915278fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:34 +0000
Subject: [PATCH 05/28] fix: remove the temporary copy when preparing it fails

---
 lens/engine.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lens/engine.go b/lens/engine.go
index 10d6152..c209765 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1004,6 +1004,13 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 		}
 	}
 
+	var complete bool
+	defer func() {
+		if !complete { // don't leave a partial copy behind
+			cleanup()
+		}
+	}()
+
 	fmt.Printf("Copying files for analysis")
 	const logSize = 1024 * 1024 * 200
 	var logCopied atomic.Int64
@@ -1044,6 +1051,7 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 	}
 	e.Config.Gopath = newGOPATH
 	fmt.Println()
+	complete = true
 	return cleanup, nil
 }
 
-- 
2.43.0


From 60470392983366a8f52687243212c081fd5d0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:37 +0000
Subject: [PATCH 06/28] fix: redirect GOMODCACHE to its own place inside the
 copied GOPATH

---
 lens/engine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index c209765..5f6fff5 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1047,7 +1047,11 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 		}
 		e.Config.Gomodcache = newModCache
 	} else {
-		e.Config.Gomodcache = filepath.Join(newGOPATH, "pkg", "mod")
+		rel, err := filepath.Rel(e.Config.Gopath, e.Config.Gomodcache)
+		if err != nil {
+			return nil, fmt.Errorf("unable to locate GOMODCACHE copy: %w", err)
+		}
+		e.Config.Gomodcache = filepath.Join(newGOPATH, rel)
 	}
 	e.Config.Gopath = newGOPATH
 	fmt.Println()
-- 
2.43.0


From e83b80d369863dd637236676935be17a42a14a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:00 +0000
Subject: [PATCH 07/28] fix: CopyDir waits for started copies when the walk
 fails

---
 lens/file.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index 92f93cb..39304c1 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -128,10 +128,7 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 			return nil
 		}
 	})
-	if err != nil {
-		return err
-	}
-	return eg.Wait()
+	return errors.Join(err, eg.Wait()) // always wait, no copy may continue once we return
 }
 
 // WriteChmod adds write permissions for owner/group/others on every file and directory under root.
-- 
2.43.0


From e1247af397526566e72d6346fa4f7144febe9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:00 +0000
Subject: [PATCH 08/28] fix: wait for started line edits before restoring on an
 early return

---
 lens/mutation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lens/mutation.go b/lens/mutation.go
index d4ca73c..f87ddea 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -83,6 +83,7 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 		}()
 
 		errGrp := ErrGroupLimitCPU()
+		defer func() { _ = errGrp.Wait() }() // edits must be finished before the restore, also on an early return
 		for _, change := range moduleChanges {
 			if len(change.LineChangeBitmap) == 0 {
 				return MutationResult{}, fmt.Errorf("bug: LineChangeBitmap not initialized: %s", change.FunctionIdent)
-- 
2.43.0


From 113aee0aeec920843f06bbfb7a31936686f0707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:00 +0000
Subject: [PATCH 09/28] fix: remove the mutation report.json before returning

---
 lens/mutation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index f87ddea..7754300 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -190,7 +190,7 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	total, _ := strconv.Atoi(m[5])
 
 	// remove unnecessary report.json report (for now)
-	go func() { _ = os.Remove(filepath.Join(projectDir, "report.json")) }()
+	_ = os.Remove(filepath.Join(projectDir, "report.json"))
 
 	return MutationResult{
 		MutationCount: total,
-- 
2.43.0


From 1f2ae3d6ac7eed87109cc266a5ac2e2e17f50f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:00 +0000
Subject: [PATCH 10/28] fix: do not wait for state points which were rejected

---
 lens/astexec.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 2157b31..bad8e9f 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -698,8 +698,6 @@ func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
 }
 
 func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
-	t.wait.Add(1) // done in routine
-
 	if monitorDebugLogging {
 		debugLogMonitorStack(msg.PointID, msg.Stack)
 		fmt.Printf(">> State fields for point %v:\n", msg.PointID)
@@ -731,6 +729,7 @@ func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
 		storageKey = *callerIdent
 	}
 
+	t.wait.Add(1) // done in routine
 	lock := t.pointLocks.Lock(storageKey)
 	go func() {
 		defer t.wait.Done()
-- 
2.43.0


From 24ddb19c9d354751e61c1987b9fbed9a2c7a1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:49 +0000
Subject: [PATCH 11/28] fix: detach a test's results from messages which arrive
 after it ended

---
 lens/astexec.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index bad8e9f..e29f9ae 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -895,12 +895,26 @@ func (t *testMonitor) HandleFuncPointPanic(msg LensMonitorMessagePointPanic) {
 func (t *testMonitor) makeTestResult(tFunc *TestFunction, failure bool) TestResult {
 	t.wait.Wait()
 
+	// detach the recorded maps, a message still in flight when the test process ended must not modify the result
+	t.callerFramesMu.Lock()
+	callerFrames := t.callerFrames
+	t.callerFrames = make(map[string][]CallFrame)
+	t.callerFramesMu.Unlock()
+	t.extensionFramesMu.Lock()
+	extensionFrames := t.extensionFrames
+	t.extensionFrames = make(map[string][]CallFrame)
+	t.extensionFramesMu.Unlock()
+	t.panicMu.Lock()
+	projectPanics, modulePanics := t.projectPanics, t.modulePanics
+	t.projectPanics, t.modulePanics = make(map[string][]string), make(map[string][]string)
+	t.panicMu.Unlock()
+
 	return TestResult{
 		TestFunction:     tFunc.Minimum(),
-		CallerResults:    t.callerFrames,
-		ExtensionFrames:  t.extensionFrames,
-		ProjectPanics:    t.projectPanics,
-		ModulePanics:     t.modulePanics,
+		CallerResults:    callerFrames,
+		ExtensionFrames:  extensionFrames,
+		ProjectPanics:    projectPanics,
+		ModulePanics:     modulePanics,
 		ModuleChangesHit: t.getModuleChangesReachCount(),
 		TestFailure:      failure,
 	}
-- 
2.43.0


From 4fdeff585c624ce82d158195d3b8342e9ea6e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:29 +0000
Subject: [PATCH 12/28] fix: remove injected client files when injecting them
 fails part way

---
 lens/asttweak.go | 12 +++++++-----
 lens/file.go     |  7 +++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 6ce3f64..5889ad1 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -227,6 +227,7 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 		return err
 	}
 	clientFile := filepath.Join(pkgDir, injectedFilenamePrefix+"client_gen.go")
+	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
 	clientTxt, err := rewriteAstClientTemplate(&buf, clientSrc, pkgName, map[string]string{
 		"lensMonitorServerPort":      strconv.Itoa(srvPort),
 		"lensMonitorFieldMaxRecurse": strconv.Itoa(maxFieldRecurse),
@@ -234,19 +235,20 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 	})
 	if err != nil {
 		return fmt.Errorf("rewrite astclient failure: %w", err)
-	} else if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
+	}
+	// added before the first write, a failure part way must not leave an injected file behind
+	m.addCleanupAction(func() error {
+		return errors.Join(removeIfExists(clientFile), removeIfExists(apiFile))
+	})
+	if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
 		return err
 	}
-	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
 	apiTxt, err := rewriteAstClientTemplate(&buf, apiSrc, pkgName, nil)
 	if err != nil {
 		return fmt.Errorf("rewrite astapi failure: %w", err)
 	} else if err := os.WriteFile(apiFile, apiTxt, 0o644); err != nil {
 		return err
 	}
-	m.addCleanupAction(func() error {
-		return errors.Join(os.Remove(clientFile), os.Remove(apiFile))
-	})
 	return nil
 }
 
diff --git a/lens/file.go b/lens/file.go
index 39304c1..51830b4 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -48,6 +48,13 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 	return true, nil
 }
 
+func removeIfExists(path string) error {
+	if err := os.Remove(path); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	return nil
+}
+
 func replaceFile(source, destination string) error {
 	if _, err := os.Stat(destination); err == nil {
 		if err = os.Remove(destination); err != nil {
-- 
2.43.0


From 7679d4af5a7c41bbd7286c7d4c5e602ec2aa5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:29 +0000
Subject: [PATCH 13/28] fix: restore an edited file also when an unrelated .bkp
 file exists

---
 lens/asttweak.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 5889ad1..1ac03c7 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -71,6 +71,7 @@ type ASTModifier struct {
 	currPointId    atomic.Uint32
 	cleanupLock    sync.Mutex
 	cleanupActions []func() error
+	backupFiles    sync.Map // file path to the backup which Restore puts back
 	fileNodeMap    sync.Map
 	commitLock     sync.Mutex
 	commitActions  map[string]func(*bytes.Buffer) error
@@ -101,6 +102,7 @@ func (m *ASTModifier) Restore(goenv []string) (result []error) {
 		}
 	}
 	m.cleanupActions = m.cleanupActions[:0] // clear completed actions
+	m.backupFiles.Clear()
 	if err := goCacheClean(goenv); err != nil {
 		result = append(result, fmt.Errorf("failure to clean go cache: %w", err))
 	}
@@ -386,15 +388,23 @@ func updateConstLiterals(f *ast.File, values map[string]string) {
 
 // backupOrigFile will copy the file to a .bkp file if one does not already exist.
 func (m *ASTModifier) backupOrigFile(filepath string) error {
+	if _, ok := m.backupFiles.Load(filepath); ok {
+		return nil // already has a backup which will be restored
+	}
 	bkpFile := filepath + ".bkp"
-	if !FileExists(bkpFile) {
-		if err := CopyFile(filepath, bkpFile); err != nil {
-			return fmt.Errorf("ast backup failure: %w", err)
+	for i := 1; ; i++ { // a file which is not our backup must neither be used nor replaced
+		if _, err := os.Lstat(bkpFile); err != nil {
+			break
 		}
-		m.addCleanupAction(func() error {
-			return replaceFile(bkpFile, filepath)
-		})
+		bkpFile = filepath + ".bkp" + strconv.Itoa(i)
 	}
+	if err := CopyFile(filepath, bkpFile); err != nil {
+		return fmt.Errorf("ast backup failure: %w", err)
+	}
+	m.addCleanupAction(func() error {
+		return replaceFile(bkpFile, filepath)
+	})
+	m.backupFiles.Store(filepath, bkpFile)
 	return nil
 }
 
-- 
2.43.0


From c60b6aed00270ada26e1ed5b25a5fac813badcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:51 +0000
Subject: [PATCH 14/28] fix: do not write edits through symbolic links

---
 lens/asttweak.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 1ac03c7..e722041 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -405,6 +405,12 @@ func (m *ASTModifier) backupOrigFile(filepath string) error {
 		return replaceFile(bkpFile, filepath)
 	})
 	m.backupFiles.Store(filepath, bkpFile)
+	if info, err := os.Lstat(filepath); err == nil && info.Mode()&os.ModeSymlink != 0 {
+		// the backup is the link itself, an edit written through the link could not be restored
+		if err := os.Remove(filepath); err != nil {
+			return fmt.Errorf("ast backup failure: %w", err)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From cb676a877929d95cf28c22ee0f363d41283a9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:19 +0000
Subject: [PATCH 15/28] fix: restore go.mod and go.sum independently and remove
 a go.sum the update created

---
 lens/astexec.go  | 44 +++++++++++++++++++++-----------------------
 lens/asttweak.go |  8 +-------
 lens/file.go     | 12 ++++++++++++
 3 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index e29f9ae..0818a44 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -113,40 +113,38 @@ func RunModuleUpdateAnalysis(gopath, gomodcache, projectDir string, portStart in
 	}
 
 	type modBackupInfo struct {
-		modPath string
-		sumPath string
-		modBkp  string
-		sumBkp  string
+		path string
+		bkp  string // empty if there was no file
 	}
-	backups := make([]modBackupInfo, 0, len(goModPaths))
+	backups := make([]modBackupInfo, 0, len(goModPaths)*2)
 	// restore originals (and remove .bkp) on every return path, including early errors
 	defer func() {
 		for _, b := range backups {
-			if err := os.Rename(b.modBkp, b.modPath); err != nil {
-				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.modPath, err)
-			} else if b.sumPath != "" {
-				if err := os.Rename(b.sumBkp, b.sumPath); err != nil {
-					log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.sumPath, err)
-				}
+			var err error
+			if b.bkp == "" {
+				err = removeIfExists(b.path)
+			} else {
+				err = os.Rename(b.bkp, b.path)
+			}
+			if err != nil {
+				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.path, err)
 			}
 		}
 	}()
 	for _, gm := range goModPaths {
-		sum := filepath.Join(filepath.Dir(gm), "go.sum")
-		info := modBackupInfo{modPath: gm, modBkp: gm + ".bkp"}
-		if err := CopyFile(gm, info.modBkp); err != nil {
-			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-				fmt.Errorf("backup go.mod failed: %w", err)
-		}
-		if FileExists(sum) {
-			info.sumPath = sum
-			info.sumBkp = sum + ".bkp"
-			if err := CopyFile(sum, info.sumBkp); err != nil {
+		for _, path := range []string{gm, filepath.Join(filepath.Dir(gm), "go.sum")} {
+			if !FileExists(path) {
+				backups = append(backups, modBackupInfo{path: path}) // created by the update, removed when restoring
+				continue
+			}
+			bkp := unusedBackupPath(path)
+			if err := CopyFile(path, bkp); err != nil {
+				_ = os.Remove(bkp)
 				return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-					fmt.Errorf("backup go.sum failed: %w", err)
+					fmt.Errorf("backup %s failed: %w", filepath.Base(path), err)
 			}
+			backups = append(backups, modBackupInfo{path: path, bkp: bkp})
 		}
-		backups = append(backups, info)
 	}
 
 	for _, gm := range goModPaths {
diff --git a/lens/asttweak.go b/lens/asttweak.go
index e722041..328546d 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -391,13 +391,7 @@ func (m *ASTModifier) backupOrigFile(filepath string) error {
 	if _, ok := m.backupFiles.Load(filepath); ok {
 		return nil // already has a backup which will be restored
 	}
-	bkpFile := filepath + ".bkp"
-	for i := 1; ; i++ { // a file which is not our backup must neither be used nor replaced
-		if _, err := os.Lstat(bkpFile); err != nil {
-			break
-		}
-		bkpFile = filepath + ".bkp" + strconv.Itoa(i)
-	}
+	bkpFile := unusedBackupPath(filepath)
 	if err := CopyFile(filepath, bkpFile); err != nil {
 		return fmt.Errorf("ast backup failure: %w", err)
 	}
diff --git a/lens/file.go b/lens/file.go
index 51830b4..298b621 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strconv"
 	"strings"
 
 	"golang.org/x/sync/errgroup"
@@ -48,6 +49,17 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 	return true, nil
 }
 
+// unusedBackupPath provides a path for a backup of the file. A file which is not our backup must neither be used nor replaced.
+func unusedBackupPath(path string) string {
+	bkpFile := path + ".bkp"
+	for i := 1; ; i++ {
+		if _, err := os.Lstat(bkpFile); err != nil {
+			return bkpFile
+		}
+		bkpFile = path + ".bkp" + strconv.Itoa(i)
+	}
+}
+
 func removeIfExists(path string) error {
 	if err := os.Remove(path); err != nil && !os.IsNotExist(err) {
 		return err
-- 
2.43.0


From 5aef46985b4c6e2203780383b68e6e8ccfd95bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:10 +0000
Subject: [PATCH 16/28] fix: report failures while removing the parts of a
 split value

---
 lens/storage.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index 95503b5..fe391f6 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -248,15 +248,19 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 
 		// wipe any old split‐parts if this key was previously split
 		if item, err := txn.Get(mainKey); err == nil {
-			_ = item.Value(func(val []byte) error {
+			if err := item.Value(func(val []byte) error {
 				if m := splitRe.FindSubmatch(val); m != nil {
 					oldCount, _ := strconv.Atoi(string(m[1]))
 					for i := 0; i < oldCount; i++ {
-						_ = txn.Delete([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
+						if err := txn.Delete([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i))); err != nil {
+							return err
+						}
 					}
 				}
 				return nil
-			})
+			}); err != nil {
+				return err
+			}
 		} else if !errors.Is(err, badger.ErrKeyNotFound) {
 			return err
 		}
@@ -370,10 +374,12 @@ func (b *badgerStorage) DeleteState(key string) error {
 		}
 		// capture the marker/value
 		var raw []byte
-		_ = item.Value(func(v []byte) error {
+		if err := item.Value(func(v []byte) error {
 			raw = append([]byte(nil), v...)
 			return nil
-		})
+		}); err != nil {
+			return err
+		}
 		// if it’s split, delete each part
 		if m := splitRe.FindSubmatch(raw); m != nil {
 			count, _ := strconv.Atoi(string(m[1]))
-- 
2.43.0


From fafe6cd3526133644700b89e6a338806a8166966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:31 +0000
Subject: [PATCH 17/28] fix: report an empty stored value as found

---
 lens/storage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/storage.go b/lens/storage.go
index fe391f6..dd6ccfd 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -296,6 +296,7 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 	var raw []byte
+	var found bool // an empty value is still a stored value
 	err := b.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
@@ -304,6 +305,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			}
 			return err
 		}
+		found = true
 		return item.Value(func(v []byte) error {
 			raw = append([]byte(nil), v...)
 			return nil
@@ -311,7 +313,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 	})
 	if err != nil {
 		return nil, false, err
-	} else if raw == nil {
+	} else if !found {
 		return nil, false, nil
 	}
 
-- 
2.43.0


From a2ed5458d3dd5042a983fb5f3c3f0ffb36f85291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:52 +0000
Subject: [PATCH 18/28] fix: read a split value and its parts in one
 transaction

---
 lens/storage.go | 65 ++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index dd6ccfd..df5851b 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -295,8 +295,10 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 }
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
-	var raw []byte
+	var stored []byte
 	var found bool // an empty value is still a stored value
+	var decompressedSize int
+	// a single transaction, so the parts of a split value always belong to the marker which was read
 	err := b.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
@@ -306,53 +308,50 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			return err
 		}
 		found = true
-		return item.Value(func(v []byte) error {
-			raw = append([]byte(nil), v...)
+		if err := item.Value(func(v []byte) error {
+			stored = append([]byte(nil), v...)
 			return nil
-		})
-	})
-	if err != nil {
-		return nil, false, err
-	} else if !found {
-		return nil, false, nil
-	}
+		}); err != nil {
+			return err
+		}
+		m := splitRe.FindSubmatch(stored)
+		if m == nil {
+			return nil // it was stored whole
+		}
 
-	var stored []byte
-	var decompressedSize int
-	if m := splitRe.FindSubmatch(raw); m == nil {
-		stored = raw // it was stored whole
-	} else { // reassemble split value
+		// reassemble split value
 		count, err := strconv.Atoi(string(m[1]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse value count: %w", err)
+			return fmt.Errorf("failed to parse value count: %w", err)
 		}
 		compressedSize, err := strconv.Atoi(string(m[2]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse compressed size: %w", err)
+			return fmt.Errorf("failed to parse compressed size: %w", err)
 		}
 		decompressedSize, err = strconv.Atoi(string(m[3]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse decompressed size: %w", err)
+			return fmt.Errorf("failed to parse decompressed size: %w", err)
 		}
 		stored = make([]byte, compressedSize)
 		var off int
-		if err := b.db.View(func(txn *badger.Txn) error {
-			for i := 0; i < count; i++ {
-				item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
-				if err != nil {
-					return fmt.Errorf("large value failure on part %d: %w", i, err)
-				} else if err := item.Value(func(v []byte) error {
-					copy(stored[off:], v)
-					off += len(v)
-					return nil
-				}); err != nil {
-					return err
-				}
+		for i := 0; i < count; i++ {
+			item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
+			if err != nil {
+				return fmt.Errorf("large value failure on part %d: %w", i, err)
+			} else if err := item.Value(func(v []byte) error {
+				copy(stored[off:], v)
+				off += len(v)
+				return nil
+			}); err != nil {
+				return err
 			}
-			return nil
-		}); err != nil {
-			return nil, false, err
 		}
+		return nil
+	})
+	if err != nil {
+		return nil, false, err
+	} else if !found {
+		return nil, false, nil
 	}
 
 	if badgerCompression == options.None { // manually decompress
-- 
2.43.0


From 9283cb3a697d77abf7ab21458b1143c271bbad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:53 +0000
Subject: [PATCH 19/28] fix: tell field value trees apart by where children end
 and by the value of nodes

---
 lens/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/types.go b/lens/types.go
index 849967f..97f4027 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -643,6 +643,9 @@ func (fv FieldValues) ID() string {
 				writeFramed([]byte(fv.Value))
 			} else {
 				hash.Write([]byte{1}) // node tag
+				writeFramed([]byte(fv.Value))
+				binary.LittleEndian.PutUint64(lenBuf[:], uint64(len(fv.Children))) // count so the end of the children can't shift
+				hash.Write(lenBuf[:])
 				walk(fv.Children)
 			}
 		}
-- 
2.43.0


From f5fffa5e9f63c1a1106788586690f7100ab71ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:36 +0000
Subject: [PATCH 20/28] fix: frame the parts of stack keys so that different
 stacks have different keys

---
 lens/astexec.go | 8 +++++---
 lens/types.go   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 0818a44..34d166b 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -13,6 +13,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"slices"
+	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -632,10 +633,11 @@ func StackFramesKey(bb *bytes.Buffer, frames []StackFrame) string {
 	bb.Reset()
 	for _, sf := range frames {
 		// don't use sf.ID(), it's possible for line numbers to change dependent on the AST rewrites
-		if bb.Len() > 0 {
-			bb.WriteRune('|')
-		}
+		// length-prefix so boundaries can't shift
+		bb.WriteString(strconv.Itoa(len(sf.File)))
+		bb.WriteRune(':')
 		bb.WriteString(sf.File)
+		bb.WriteString(strconv.Itoa(len(sf.Function)))
 		bb.WriteRune(':')
 		bb.WriteString(sf.Function)
 	}
diff --git a/lens/types.go b/lens/types.go
index 97f4027..fc6ccc4 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -581,7 +581,8 @@ func (sf *StackFrame) ID() string {
 	if sf == nil {
 		return ""
 	}
-	return stringKey(sf.File + strconv.Itoa(int(sf.Line)) + sf.Function)
+	// length-prefix File and delimit Line so the boundaries can't shift
+	return stringKey(strconv.Itoa(len(sf.File)) + ":" + sf.File + strconv.Itoa(int(sf.Line)) + ":" + sf.Function)
 }
 
 // Equal reports whether frames match.
-- 
2.43.0


From 898d9882f240aa18cd5b5e6105b12cdad60ee18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:28 +0000
Subject: [PATCH 21/28] fix: report the changed function count when no change
 is reachable

---
 lens/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index 5f6fff5..1a8b540 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -837,7 +837,7 @@ func (e *AnalysisEngine) Run() error {
 		log.Printf("Module changes are not reachable by project, exiting")
 		return e.ReportWriter.WriteReportFiles(e.Config.ReportJsonFile, e.Config.ReportChartsFile,
 			startTime, analysisEndTime.Sub(startTime), 0, 0, 0,
-			initialModules.changedModules, checkedModuleNames, 0, 0, 0,
+			initialModules.changedModules, checkedModuleNames, len(moduleChanges), 0, 0,
 			0, callingFunctions, nil,
 			0, 0, nil, MutationResult{})
 	}
-- 
2.43.0


From 0e31eb34a7fd93b2e434614560429c3bc4125c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:49 +0000
Subject: [PATCH 22/28] fix: no empty test report for a test without results
 before the update

---
 lens/engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 1a8b540..f2e7d21 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -402,9 +402,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 
 	// compare the pre and post module update field values
 	var sameCount, diffCount int
-	testReports := make([]TestReport, len(postResultsNames))
+	testReports := make([]TestReport, 0, len(postResultsNames))
 	var performanceLogBuffer strings.Builder
-	for i, funcIdent := range postResultsNames {
+	for _, funcIdent := range postResultsNames {
 		preResults, found, err := d.loadTestResult(preResultStorage, funcIdent)
 		if err != nil {
 			return 0, 0, nil, fmt.Errorf("error loading pre-results for %s: %w", funcIdent, err)
@@ -591,7 +591,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 		postResults.CallerResults = nil
 		postResults.ProjectPanics = nil
 		postResults.ModulePanics = nil
-		testReports[i] = TestReport{
+		testReports = append(testReports, TestReport{
 			OriginalResult:      preResults,
 			PostUpdateResult:    postResults,
 			CallerFieldChanges:  callerFieldChanges,
@@ -599,7 +599,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 			TestRegressionCount: testRegressionCount,
 			SameFieldCount:      testSameCount,
 			DiffFieldCount:      testDiffCount,
-		}
+		})
 	}
 
 	if performanceLogBuffer.Len() > 0 {
-- 
2.43.0


From 115785c51fa51e2717d2f4ea81dc2933a202c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 23/28] fix: instrument returns and calls in select clauses,
 labeled statements and else-if chains

The statement rewriters did not look inside select clauses (returns), labeled
statements and the later parts of an else-if chain, and a function without
results which returns early had no point at its own end, so runs through those
paths reported no state and no call.
---
 lens/asttweak.go | 301 +++++++++++++++++++++++------------------------
 1 file changed, 145 insertions(+), 156 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 328546d..4580e9a 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -564,88 +564,75 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	var foundExplicitReturn bool
 	// helper function that recursively rewrites a *ast.BlockStmt in-place
 	var buf bytes.Buffer
-	var rewriteBlock func(*ast.BlockStmt) error
-	rewriteBlock = func(blk *ast.BlockStmt) error {
-		for i, st := range blk.List {
-			switch s := st.(type) {
-			case *ast.ReturnStmt:
-				foundExplicitReturn = true
-				pointID, err := m.nextPointId()
-				if err != nil {
-					return err
-				}
-				pointIDs = append(pointIDs, pointID)
-
-				decls := visibleDeclsBefore(funcDecl, s.Pos())
-				newNode, err := buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
-				if err != nil {
-					return err
-				}
-				blk.List[i] = newNode // replace old return with block
-			case *ast.BlockStmt:
-				if err := rewriteBlock(s); err != nil {
-					return err
-				}
-			case *ast.IfStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-				if s.Else != nil {
-					switch e := s.Else.(type) {
-					case *ast.BlockStmt:
-						if err := rewriteBlock(e); err != nil {
-							return err
-						}
-					case *ast.IfStmt:
-						if err := rewriteBlock(e.Body); err != nil {
-							return err
-						}
-					}
-				}
-			case *ast.ForStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-			case *ast.RangeStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-			case *ast.SwitchStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CaseClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
-				}
-			case *ast.TypeSwitchStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CaseClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
-				}
+	var rewriteStmt func(ast.Stmt) (ast.Stmt, error) // returns the statement to use instead
+	rewriteList := func(list []ast.Stmt) error {
+		for i, st := range list {
+			newStmt, err := rewriteStmt(st)
+			if err != nil {
+				return err
 			}
+			list[i] = newStmt
 		}
 		return nil
 	}
+	rewriteStmt = func(st ast.Stmt) (ast.Stmt, error) {
+		var err error
+		switch s := st.(type) {
+		case *ast.ReturnStmt:
+			foundExplicitReturn = true
+			pointID, err := m.nextPointId()
+			if err != nil {
+				return nil, err
+			}
+			pointIDs = append(pointIDs, pointID)
+
+			decls := visibleDeclsBefore(funcDecl, s.Pos())
+			// replace old return with block
+			return buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
+		case *ast.BlockStmt:
+			err = rewriteList(s.List)
+		case *ast.IfStmt:
+			if err = rewriteList(s.Body.List); err == nil && s.Else != nil {
+				s.Else, err = rewriteStmt(s.Else) // block or the next if of the chain
+			}
+		case *ast.ForStmt:
+			err = rewriteList(s.Body.List)
+		case *ast.RangeStmt:
+			err = rewriteList(s.Body.List)
+		case *ast.SwitchStmt:
+			err = rewriteList(s.Body.List)
+		case *ast.TypeSwitchStmt:
+			err = rewriteList(s.Body.List)
+		case *ast.SelectStmt:
+			err = rewriteList(s.Body.List)
+		case *ast.CaseClause:
+			err = rewriteList(s.Body)
+		case *ast.CommClause:
+			err = rewriteList(s.Body)
+		case *ast.LabeledStmt:
+			s.Stmt, err = rewriteStmt(s.Stmt)
+		}
+		return st, err
+	}
 
-	if err := rewriteBlock(funcDecl.Body); err != nil {
+	// a function without results returns at its end too, unless a return statement is already there
+	var returnsAtEnd bool
+	if len(funcResultTypes) == 0 && len(funcDecl.Body.List) > 0 {
+		_, lastIsReturn := funcDecl.Body.List[len(funcDecl.Body.List)-1].(*ast.ReturnStmt)
+		returnsAtEnd = !lastIsReturn
+	}
+
+	if err := rewriteList(funcDecl.Body.List); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
-	} else if !foundExplicitReturn {
+	} else if !foundExplicitReturn || returnsAtEnd {
 		pointID, err := m.nextPointId()
 		if err != nil {
 			return nil, err
 		}
-		pointIDs = []uint32{pointID}
+		pointIDs = append(pointIDs, pointID)
 
 		decls := visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1)
-		stmt, err := buildImplicitReturnInstrumentation(&buf, pointIDs[0], decls)
+		stmt, err := buildImplicitReturnInstrumentation(&buf, pointID, decls)
 		if err != nil {
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 		}
@@ -791,6 +778,91 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 		return firstErr
 	}
 
+	// Helper to rewrite the blocks nested in a statement.
+	var rewriteNested func(ast.Stmt) error
+	rewriteNested = func(st ast.Stmt) error {
+		switch s := st.(type) {
+		case *ast.BlockStmt:
+			if err := rewriteBlock(s); err != nil {
+				return err
+			}
+		case *ast.IfStmt:
+			if err := rewriteBlock(s.Body); err != nil {
+				return err
+			}
+			if s.Else != nil { // block or the next if of the chain
+				return rewriteNested(s.Else)
+			}
+		case *ast.LabeledStmt:
+			return rewriteNested(s.Stmt)
+		case *ast.ForStmt:
+			// If Post contains a matching call, wrap it so temps stay in scope per iteration
+			if s.Post != nil {
+				if postCall, postMetadata := findMatchingCall(s.Post); postCall != nil {
+					pointID, err := m.nextPointId()
+					if err != nil {
+						return err
+					}
+					pointMap[pointID] = postMetadata
+					preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, postCall, filePackageNames)
+					if err != nil {
+						return err
+					}
+
+					origPost := s.Post
+					blockList := append(make([]ast.Stmt, 0, len(preStmts)+1), preStmts...)
+					blockList = append(blockList, origPost)
+					s.Post = &ast.ExprStmt{
+						X: &ast.CallExpr{
+							Fun: &ast.FuncLit{
+								Type: &ast.FuncType{Params: &ast.FieldList{}},
+								Body: &ast.BlockStmt{List: blockList},
+							},
+						},
+					}
+				}
+			}
+			if err := rewriteBlock(s.Body); err != nil {
+				return err
+			}
+		case *ast.RangeStmt:
+			if err := rewriteBlock(s.Body); err != nil {
+				return err
+			}
+		case *ast.SwitchStmt:
+			for _, stmt := range s.Body.List {
+				if cc, ok := stmt.(*ast.CaseClause); ok {
+					blk := &ast.BlockStmt{List: cc.Body}
+					if err := rewriteBlock(blk); err != nil {
+						return err
+					}
+					cc.Body = blk.List
+				}
+			}
+		case *ast.TypeSwitchStmt:
+			for _, stmt := range s.Body.List {
+				if cc, ok := stmt.(*ast.CaseClause); ok {
+					blk := &ast.BlockStmt{List: cc.Body}
+					if err := rewriteBlock(blk); err != nil {
+						return err
+					}
+					cc.Body = blk.List
+				}
+			}
+		case *ast.SelectStmt:
+			for _, stmt := range s.Body.List {
+				if cc, ok := stmt.(*ast.CommClause); ok {
+					blk := &ast.BlockStmt{List: cc.Body}
+					if err := rewriteBlock(blk); err != nil {
+						return err
+					}
+					cc.Body = blk.List
+				}
+			}
+		}
+		return nil
+	}
+
 	rewriteBlock = func(blk *ast.BlockStmt) error {
 		newStmts := make([]ast.Stmt, 0, len(blk.List))
 		for _, st := range blk.List {
@@ -963,91 +1035,8 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 			}
 
 			// Recursively process nested blocks
-			switch s := st.(type) {
-			case *ast.BlockStmt:
-				if err := rewriteBlock(s); err != nil {
-					return err
-				}
-			case *ast.IfStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-				if s.Else != nil {
-					switch e := s.Else.(type) {
-					case *ast.BlockStmt:
-						if err := rewriteBlock(e); err != nil {
-							return err
-						}
-					case *ast.IfStmt:
-						if err := rewriteBlock(e.Body); err != nil {
-							return err
-						}
-					}
-				}
-			case *ast.ForStmt:
-				// If Post contains a matching call, wrap it so temps stay in scope per iteration
-				if s.Post != nil {
-					if postCall, postMetadata := findMatchingCall(s.Post); postCall != nil {
-						pointID, err := m.nextPointId()
-						if err != nil {
-							return err
-						}
-						pointMap[pointID] = postMetadata
-						preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, postCall, filePackageNames)
-						if err != nil {
-							return err
-						}
-
-						origPost := s.Post
-						blockList := append(make([]ast.Stmt, 0, len(preStmts)+1), preStmts...)
-						blockList = append(blockList, origPost)
-						s.Post = &ast.ExprStmt{
-							X: &ast.CallExpr{
-								Fun: &ast.FuncLit{
-									Type: &ast.FuncType{Params: &ast.FieldList{}},
-									Body: &ast.BlockStmt{List: blockList},
-								},
-							},
-						}
-					}
-				}
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-			case *ast.RangeStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-			case *ast.SwitchStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CaseClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
-				}
-			case *ast.TypeSwitchStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CaseClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
-				}
-			case *ast.SelectStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CommClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
-				}
+			if err := rewriteNested(st); err != nil {
+				return err
 			}
 
 			// Recurse into any function literals in this statement.
@@ -1274,7 +1263,7 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		// If a block-like node ends before retPos, nothing inside it is visible
 		switch n.(type) {
 		case *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt,
-			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause:
+			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.CaseClause, *ast.CommClause:
 			if n.End() < retPos {
 				return false // prune subtree
 			}
-- 
2.43.0


From c407df82d705eb28ed8cea7c4b5400fd5d2bbf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:13 +0000
Subject: [PATCH 24/28] fix: keep changed functions of a module which is listed
 more than once

In a workspace a module can be in the list of changes once per go.mod. The
second entry is skipped as visited, and its empty result replaced the changed
functions found for the first.
---
 lens/module.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index bcd5b72..9a61704 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -116,7 +116,7 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 		}
 		indirectAnalysis = append(indirectAnalysis, recursiveCalls...)
 
-		allModuleData[mc.Name] = cf
+		allModuleData[mc.Name] = append(allModuleData[mc.Name], cf...) // a module may be listed more than once
 		if len(pkgs) > 0 {
 			newVersionPackages[mc.Name] = pkgs
 		}
-- 
2.43.0


From e3e5cf402048c0a74b0ab65cb20a3dbbc9826a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:07 +0000
Subject: [PATCH 25/28] fix: only functions which go test runs are test
 functions; helpers named like one hid the tests that call them

---
 lens/static.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lens/static.go b/lens/static.go
index 14a8bad..4ed5e38 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -13,6 +13,8 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/go-analyze/bulk"
 	"golang.org/x/tools/go/callgraph"
@@ -640,8 +642,12 @@ func isGoTestFunction(fn *ssa.Function) bool {
 		return false
 	} else if _, ok := fn.Syntax().(*ast.FuncDecl); !ok {
 		return false // only select the top level functions, don't try to be granular to any test case literal / anonymous test functions
-	} else if !strings.HasPrefix(fn.Name(), "Test") {
+	} else if fn.Signature.Recv() != nil {
+		return false // methods are not run by go test, their callers may be
+	} else if suffix, ok := strings.CutPrefix(fn.Name(), "Test"); !ok {
 		return false
+	} else if first, _ := utf8.DecodeRuneInString(suffix); unicode.IsLower(first) {
+		return false // "Testify" is not a test for go test
 	} else if !strings.HasSuffix(filePathForSSAFunc(fn), "_test.go") {
 		return false
 	} else if fn.Signature.Params().Len() != 1 {
-- 
2.43.0


From ddc468a6b452972c846e6e79c2823fb1f72ffebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 26/28] fix: remove the partial backup when copying a file for
 its backup fails

---
 lens/asttweak.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 4580e9a..7da6543 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -393,6 +393,7 @@ func (m *ASTModifier) backupOrigFile(filepath string) error {
 	}
 	bkpFile := unusedBackupPath(filepath)
 	if err := CopyFile(filepath, bkpFile); err != nil {
+		_ = os.Remove(bkpFile) // don't leave a partial backup behind
 		return fmt.Errorf("ast backup failure: %w", err)
 	}
 	m.addCleanupAction(func() error {
-- 
2.43.0


From 09b47c363799a0d4ab2a4a5ec2a1cdea8280fc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 27/28] fix: check the charts file path also when a JSON report
 file is configured

---
 lens/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index f2e7d21..a262a85 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1148,7 +1148,8 @@ func (c *Config) Prepare() error {
 		if err := c.validateOutputPath(c.ReportJsonFile); err != nil {
 			return fmt.Errorf("invalid JSON report file path: %w", err)
 		}
-	} else if c.ReportChartsFile != "" {
+	}
+	if c.ReportChartsFile != "" {
 		if err := c.validateOutputPath(c.ReportChartsFile); err != nil {
 			return fmt.Errorf("invalid charts report file path: %w", err)
 		}
-- 
2.43.0


From 7d64af6a3d6a1c9795aba5899c2d07487e93db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:17 +0000
Subject: [PATCH 28/28] fix: probe the output directory with a file of its own

---
 lens/engine.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index a262a85..4ee554f 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1214,11 +1214,10 @@ func (c *Config) validateOutputPath(path string) error {
 	}
 
 	// Check if we can write to the directory
-	testFile := filepath.Join(dir, ".write_test")
-	file, err := os.Create(testFile)
+	file, err := os.CreateTemp(dir, ".write_test*") // a new file, nothing of the user may be replaced or removed
 	if err != nil {
 		return fmt.Errorf("cannot write to output directory '%s': %w", dir, err)
 	}
 	_ = file.Close()
-	return os.Remove(testFile)
+	return os.Remove(file.Name())
 }
-- 
2.43.0

