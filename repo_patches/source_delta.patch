From c4875b4ddbeee4af07c25d7a16684c99adb8f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 01/24] fix: load plugins whose file names contain upper-case
 letters

names() returns the names as spelled on disk while the map is keyed by the
lower-cased name, so the lookup gave nil and loading such a plugin ended in
a nil pointer panic.
---
 pluginManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pluginManager.go b/pluginManager.go
index 553a68a..872778a 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -133,7 +133,7 @@ func (pm *PluginManager) loadPlugins(files []string, oldManager *PluginManager,
 	pm.outputStats1(infoMap)
 	pm.when = time.Now()
 	for _, name := range infoMap.names() {
-		info := infoMap.m[name]
+		info := infoMap.m[name2key(name)]
 		curFileInfo = info
 		if err = pm.loadPlugin(info, data); err != nil {
 			return fmt.Errorf("failed to load the plugin %s. err: %w", info.name, err)
-- 
2.43.0


From 64bf9a5c7236b76c3edf261be6549bd3b7bc418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 02/24] fix: decide which Import fields are exported by the Go
 rule

The first byte of the name was taken for its first letter, so an unexported
field whose name begins with a non-ASCII letter was taken for a dependency,
and an exported one could be overlooked.
---
 pluginManager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index 872778a..90d03f0 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -13,7 +13,6 @@ import (
 	"sort"
 	"strings"
 	"time"
-	"unicode"
 
 	"github.com/edwingeng/hotswap/internal/hutils"
 	"github.com/edwingeng/hotswap/vault"
@@ -260,7 +259,7 @@ func (pm *PluginManager) initDeps() error {
 		n := impTyp.Elem().NumField()
 		for i := 0; i < n; i++ {
 			field := impTyp.Elem().Field(i)
-			if ch := field.Name[0]; !unicode.IsUpper(rune(ch)) {
+			if field.PkgPath != "" {
 				continue
 			}
 			if field.Tag.Get("hotswap") == "-" {
-- 
2.43.0


From 97bae7cdb34c7590e4a62bd7d18f925cc994d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 03/24] fix: accept a whitelist that names a plugin twice

The number of distinct plugins found was compared with the length of the
list, so a repeated name made every load fail with an empty list of missing
plugins.
---
 pluginManagerSwapper.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index 538608b..aef07c2 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -114,13 +114,13 @@ func (sw *PluginManagerSwapper) loadPluginsImpl(data interface{}, cbs []ReloadCa
 		}
 	}
 	if len(sw.opts.whitelist) > 0 {
-		if len(found) != len(sw.opts.whitelist) {
-			var missing []string
-			for _, v := range sw.opts.whitelist {
-				if _, ok := found[v]; !ok {
-					missing = append(missing, v)
-				}
+		var missing []string
+		for _, v := range sw.opts.whitelist {
+			if _, ok := found[v]; !ok {
+				missing = append(missing, v)
 			}
+		}
+		if len(missing) > 0 {
 			return nil, errors.New("cannot find the following plugin(s): " + hutils.Join(missing...))
 		}
 	}
-- 
2.43.0


From 9af856d383986786586203e76bd8dd3c78aecb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 04/24] fix: check each plugin only once for cyclic
 dependencies

Every path through the dependency graph was walked, which takes exponential
time: loading thirty plugins that all depend on each other's predecessors
never ended.
---
 pluginManager.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index 90d03f0..cfb0642 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -289,11 +289,12 @@ func (pm *PluginManager) initDeps() error {
 		}
 	}
 
+	acyclic := make(map[*Plugin]struct{})
 	for _, p := range pm.pluginMap {
 		if len(p.Deps) == 0 {
 			continue
 		}
-		cyclicDeps := pm.checkCyclicDependency(p, make(map[*Plugin]struct{}))
+		cyclicDeps := pm.checkCyclicDependency(p, make(map[*Plugin]struct{}), acyclic)
 		if len(cyclicDeps) != 0 {
 			var names []string
 			for _, p := range cyclicDeps {
@@ -317,7 +318,10 @@ func (pm *PluginManager) initDeps() error {
 	return nil
 }
 
-func (pm *PluginManager) checkCyclicDependency(p *Plugin, visited map[*Plugin]struct{}) []*Plugin {
+func (pm *PluginManager) checkCyclicDependency(p *Plugin, visited, acyclic map[*Plugin]struct{}) []*Plugin {
+	if _, ok := acyclic[p]; ok {
+		return nil
+	}
 	me := [1]*Plugin{p}
 	if _, ok := visited[p]; ok {
 		return me[:]
@@ -330,12 +334,13 @@ func (pm *PluginManager) checkCyclicDependency(p *Plugin, visited map[*Plugin]st
 
 	for _, depName := range p.Deps {
 		dep := pm.pluginMap[name2key(depName)]
-		ret := pm.checkCyclicDependency(dep, visited)
+		ret := pm.checkCyclicDependency(dep, visited, acyclic)
 		if len(ret) > 0 {
 			return append(me[:], ret...)
 		}
 	}
 
+	acyclic[p] = struct{}{}
 	return nil
 }
 
-- 
2.43.0


From 140a1c02e273df71952e5deb56a8ffcf1aa33bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 05/24] fix: refuse static plugins whose names differ only in
 case

The second one silently replaced the first; loading the same plugins from
files is refused.
---
 staticPlugin.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/staticPlugin.go b/staticPlugin.go
index cda9663..61dbb15 100644
--- a/staticPlugin.go
+++ b/staticPlugin.go
@@ -66,6 +66,15 @@ func (pm *PluginManager) loadStaticPlugins(staticPlugins map[string]*StaticPlugi
 	}
 	sort.Strings(a)
 
+	names := make(map[string]string)
+	for _, k := range a {
+		key := name2key(staticPlugins[k].Name)
+		if another, ok := names[key]; ok {
+			return fmt.Errorf("duplicate name detected: %s. plugins: %s, %s", key, another, k)
+		}
+		names[key] = k
+	}
+
 	pm.when = time.Now()
 	for _, name := range a {
 		curPlugin = staticPlugins[name]
-- 
2.43.0


From 9ad890dc73d4948102b71312c1ae910681f9c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 06/24] fix: Lookup on a statically linked plugin returns an
 error

A static plugin has no *plugin.Plugin, and Lookup dereferenced it.
---
 plugin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin.go b/plugin.go
index 0a249f8..8223e11 100644
--- a/plugin.go
+++ b/plugin.go
@@ -82,6 +82,9 @@ func (pl *Plugin) Lookup(symName string, out interface{}) error {
 	if k := outVal.Type().Kind(); k != reflect.Ptr {
 		return fmt.Errorf("out must be a pointer. plugin: %s, symName: %s", pl.Name, symName)
 	}
+	if pl.P == nil {
+		return ErrNotExist
+	}
 	sym, err := pl.P.Lookup(symName)
 	if err != nil {
 		return ErrNotExist
-- 
2.43.0


From 09ba1078ae0c1598724d6d21106c4ee68e7dbb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 07/24] fix: stop looking for go.mod at the root of the file
 system

---
 internal/hutils/hutils.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 1b87538..96ca031 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -73,11 +73,15 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	}
 
 	var a1 []string
-	for absDir != "" {
+	for {
 		f := filepath.Join(absDir, "go.mod")
 		if _, err := os.Stat(f); err != nil {
+			parent := filepath.Dir(absDir)
+			if parent == absDir {
+				return "", "", errors.New("cannot find go.mod")
+			}
 			a1 = append(a1, filepath.Base(absDir))
-			absDir = filepath.Dir(absDir)
+			absDir = parent
 			continue
 		}
 
@@ -103,8 +107,6 @@ func PackageFromDirectory(dir string) (string, string, error) {
 		a3 := append(a2, a1...)
 		return pkgName, path.Join(a3...), nil
 	}
-
-	return "", "", errors.New("cannot find go.mod")
 }
 
 func Gofmt(file string) error {
-- 
2.43.0


From 37c3ef0261d7765230db3bdda1cb9ad0f2ce571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 08/24] fix: accept plugin directories with external test
 packages

---
 internal/hutils/hutils.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 96ca031..2c3232b 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"go/ast"
 	"go/parser"
 	"go/token"
 	"io/ioutil"
@@ -45,6 +46,12 @@ func PackageFromDirectory(dir string) (string, string, error) {
 		return "", "", err
 	}
 
+	for name, pkg := range pkgs {
+		if isExternalTestPackage(name, pkg) {
+			delete(pkgs, name)
+		}
+	}
+
 	var pkgName string
 	switch n := len(pkgs); n {
 	case 0:
@@ -109,6 +116,18 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	}
 }
 
+func isExternalTestPackage(name string, pkg *ast.Package) bool {
+	if !strings.HasSuffix(name, "_test") {
+		return false
+	}
+	for file := range pkg.Files {
+		if !strings.HasSuffix(file, "_test.go") {
+			return false
+		}
+	}
+	return true
+}
+
 func Gofmt(file string) error {
 	cmd := exec.Command("gofmt", "-w", file)
 	cmd.Stdout = os.Stdout
-- 
2.43.0


From 16fd853105077452bfc506da3a8302a45dc816af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 09/24] fix: recognize an <outputDir> below <pluginDir> whose
 name begins with two dots

---
 cli/hotswap/cmd/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index f7be0c4..69d2a2d 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -217,7 +217,7 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		if bc.outputDir == bc.pluginDir {
 			panic("<pluginDir> and <outputDir> must not be identical")
 		}
-		if rel, err := filepath.Rel(bc.pluginDir, bc.outputDir); err == nil && !strings.HasPrefix(rel, "..") {
+		if rel, err := filepath.Rel(bc.pluginDir, bc.outputDir); err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 			panic("<outputDir> must not be a subdirectory of <pluginDir>")
 		}
 	}
-- 
2.43.0


From 8365014d90f1104ccf2f12fc2f9dcdeafbb7c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 10/24] fix: keep the static registrations of other plugins

---
 cli/hotswap/cmd/build.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 69d2a2d..6081b5a 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -401,8 +401,8 @@ func (bc *buildCmdT) genStaticPlugin() {
 
 func findPluginInitFiles(args completePluginArgs) []string {
 	str1 := strings.ReplaceAll(hotswapStaticPluginInitFile, ".", `\.`)
-	str2 := strings.ReplaceAll(str1, "%s", ".+?")
-	rexName := regexp.MustCompile(str2)
+	str2 := strings.ReplaceAll(str1, "%s", ".+")
+	rexName := regexp.MustCompile("^" + str2 + "$")
 
 	var a []string
 	_ = filepath.WalkDir(args.outputDir, func(path string, d fs.DirEntry, err error) error {
@@ -464,16 +464,22 @@ func removeStaticFiles(args completePluginArgs) {
 	}
 
 	pluginName := filepath.Base(args.pluginDir)
-	allInitFiles := findPluginInitFiles(args)
-	for _, f := range allInitFiles {
+	pluginInitFile := fmt.Sprintf(hotswapStaticPluginInitFile, pluginName)
+	var removedInitFiles, otherInitFiles []string
+	for _, f := range findPluginInitFiles(args) {
+		if filepath.Base(f) != pluginInitFile {
+			otherInitFiles = append(otherInitFiles, f)
+			continue
+		}
 		if err := os.Remove(f); err != nil {
 			panic(err)
 		}
+		removedInitFiles = append(removedInitFiles, f)
 	}
 
 	pluginVarDefFile := filepath.Join(args.outputDir, hotswapStaticPluginsFile)
 	var pluginVarDefFileWantRemoved bool
-	if len(allInitFiles) == 0 {
+	if len(otherInitFiles) == 0 {
 		if _, err := os.Stat(pluginVarDefFile); err == nil {
 			pluginVarDefFileWantRemoved = true
 		}
@@ -489,11 +495,11 @@ func removeStaticFiles(args completePluginArgs) {
 		for _, f := range a {
 			fmt.Println("\t" + f)
 		}
-		if len(allInitFiles) > 0 {
+		if len(removedInitFiles) > 0 {
 			fmt.Println()
 			fmt.Println("Removed Files:")
 			fmt.Println(strings.Repeat("=", 30))
-			for _, f := range allInitFiles {
+			for _, f := range removedInitFiles {
 				fmt.Println("\t" + filepath.Base(f))
 			}
 		}
-- 
2.43.0


From 71750a5f2f21d5c7e1b1c7a54132c21f5aa595c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 11/24] fix: register static plugins whose names end in _test

---
 cli/hotswap/cmd/build.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 6081b5a..b12a49d 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -399,6 +399,14 @@ func (bc *buildCmdT) genStaticPlugin() {
 	completePlugin(buildCompletePluginArgs(bc, true, true, epilogue))
 }
 
+func staticPluginInitFileName(pluginName string) string {
+	if strings.HasSuffix(pluginName, "_test") {
+		// Go takes a file whose name ends in _test.go for a test.
+		pluginName += "."
+	}
+	return fmt.Sprintf(hotswapStaticPluginInitFile, pluginName)
+}
+
 func findPluginInitFiles(args completePluginArgs) []string {
 	str1 := strings.ReplaceAll(hotswapStaticPluginInitFile, ".", `\.`)
 	str2 := strings.ReplaceAll(str1, "%s", ".+")
@@ -464,7 +472,7 @@ func removeStaticFiles(args completePluginArgs) {
 	}
 
 	pluginName := filepath.Base(args.pluginDir)
-	pluginInitFile := fmt.Sprintf(hotswapStaticPluginInitFile, pluginName)
+	pluginInitFile := staticPluginInitFileName(pluginName)
 	var removedInitFiles, otherInitFiles []string
 	for _, f := range findPluginInitFiles(args) {
 		if filepath.Base(f) != pluginInitFile {
@@ -615,7 +623,7 @@ func genHotswapStaticPluginInit(args completePluginArgs, generated *generatedFil
 	if err := tpl.Execute(&buf, &tplArgs); err != nil {
 		panic(err)
 	}
-	fileName := fmt.Sprintf(hotswapStaticPluginInitFile, tplArgs.PluginName)
+	fileName := staticPluginInitFileName(tplArgs.PluginName)
 	file := filepath.Join(args.outputDir, fileName)
 	if err := ioutil.WriteFile(file, buf.Bytes(), 0644); err != nil {
 		panic(err)
-- 
2.43.0


From 6dd4519715bb907a4aa6afa039f68dfa24a7d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 12/24] fix: check the plugin functions before generating
 static code

---
 cli/hotswap/cmd/build.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index b12a49d..32d7cf6 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -291,10 +291,12 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 	}()
 
 	var outputFile string
-	if !bc.staticLinking {
+	if !bc.cleanOnly {
 		if v := os.Getenv("hotswap:checkRequiredPluginFuncs"); v != "false" && v != "0" {
 			parseRequiredPluginFuncs(bc.pluginDir, "")
 		}
+	}
+	if !bc.staticLinking {
 		outputFile = bc.buildPlugin()
 	} else if bc.cleanOnly {
 		removeStaticFiles(buildCompletePluginArgs(bc, false, true, nil))
-- 
2.43.0


From b6987b65734bdc7b8daa01a82201ddfde15f064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 13/24] fix: make every build a distinct plugin

---
 cli/hotswap/cmd/build.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 32d7cf6..210a72c 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -227,11 +227,10 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		panic(fmt.Errorf("failed to determine the package path. err: %v", err))
 	}
 
-	now := time.Now().Format("02150405")
 	commitInfo := bc.commitInfo()
 	if !bc.staticLinking {
 		const format = "%s-%s-%s"
-		bc.tmpDirName = fmt.Sprintf(format, filepath.Base(bc.pluginDir), commitInfo, now)
+		bc.tmpDirName = fmt.Sprintf(format, filepath.Base(bc.pluginDir), commitInfo, uniqueSuffix())
 		bc.tmpDir = filepath.Join(filepath.Dir(bc.pluginDir), bc.tmpDirName)
 		bc.tmpPkgPath = path.Join(path.Dir(bc.pluginPkgPath), bc.tmpDirName)
 
@@ -314,6 +313,13 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 	}
 }
 
+// uniqueSuffix makes each build a package of its own, otherwise the runtime refuses
+// to load it with the error "plugin already loaded".
+func uniqueSuffix() string {
+	now := time.Now()
+	return fmt.Sprintf("%s%09d-%d", now.Format("060102150405"), now.Nanosecond(), os.Getpid())
+}
+
 func (bc *buildCmdT) outputTiming() {
 	if !bc.verbose {
 		return
-- 
2.43.0


From a0f78abb96e7d4a26812d21d720834650b0a99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 14/24] fix: replace only the package clause

---
 cli/hotswap/cmd/build.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 210a72c..31b096f 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -784,7 +784,6 @@ func (bc *buildCmdT) collectFiles() []string {
 }
 
 func (bc *buildCmdT) copyFiles(files []string) {
-	rexPkg := regexp.MustCompile(`(?m)^package\s+\S+`)
 	oldImportPath1 := []byte(`"` + bc.pluginPkgPath + `"`)
 	newImportPath1 := []byte(`"` + bc.tmpPkgPath + `"`)
 	oldImportPath2 := []byte(`"` + bc.pluginPkgPath + `/`)
@@ -796,7 +795,7 @@ func (bc *buildCmdT) copyFiles(files []string) {
 
 	replaceCode := func(rel string, data1 []byte) []byte {
 		if filepath.Dir(rel) == "." {
-			data1 = rexPkg.ReplaceAll(data1, []byte("package main"))
+			data1 = replacePackageName(data1, "main")
 		}
 		data2 := bytes.ReplaceAll(data1, oldImportPath1, newImportPath1)
 		data3 := bytes.ReplaceAll(data2, oldImportPath2, newImportPath2)
@@ -867,6 +866,17 @@ func (bc *buildCmdT) copyFiles(files []string) {
 	}
 }
 
+func replacePackageName(data []byte, name string) []byte {
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", data, parser.PackageClauseOnly)
+	if err != nil {
+		return data
+	}
+	pos := fset.File(file.Pos()).Offset(file.Name.Pos())
+	end := pos + len(file.Name.Name)
+	return append(append(append([]byte(nil), data[:pos]...), name...), data[end:]...)
+}
+
 type generatedFiles struct {
 	mu    sync.Mutex
 	files map[string]bool
-- 
2.43.0


From 5c37b53d9b355dba4215ac8bb2dbbdf6d3b3a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 15/24] fix: do not close the abort channel twice

---
 cli/hotswap/cmd/build.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 31b096f..59e5204 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -812,13 +812,10 @@ func (bc *buildCmdT) copyFiles(files []string) {
 	burst := runtime.NumCPU() * 5
 	chErr := make(chan error, burst)
 	abort := make(chan struct{})
+	var abortOnce sync.Once
 	reportErr := func(err error) {
 		chErr <- err
-		select {
-		case <-abort:
-		default:
-			close(abort)
-		}
+		abortOnce.Do(func() { close(abort) })
 	}
 
 	var wg sync.WaitGroup
-- 
2.43.0


From 723353b56ef0f7da7216fc728abeb43aedcf44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 16/24] fix: clean up and fail when a build is interrupted

---
 cli/hotswap/cmd/build.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 59e5204..367a06e 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -270,9 +270,12 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		defer close(done)
 		select {
 		case x := <-chSignal:
-			signal.Reset(sigs...)
-			if x == syscall.SIGINT {
+			if x != syscall.SIGQUIT {
+				// Another signal terminates the program immediately.
+				signal.Reset(sigs...)
 				close(interruptProgram)
+			}
+			if x == syscall.SIGINT {
 				go func() {
 					time.Sleep(time.Second)
 					fmt.Println("\nPress Ctrl-C again to terminate the program immediately.")
@@ -287,6 +290,8 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		default:
 		}
 		<-done
+		// An interrupted build may have created files since the signal was handled.
+		bc.removeTmpDir()
 	}()
 
 	var outputFile string
@@ -367,6 +372,14 @@ func (bc *buildCmdT) removeTmpDir() {
 	}
 }
 
+func panicIfInterrupted() {
+	select {
+	case <-interruptProgram:
+		panic("interrupted")
+	default:
+	}
+}
+
 func (bc *buildCmdT) commitInfo() string {
 	cmd1 := exec.Command("git", "log", "-1", "--format=%H", "HEAD")
 	cmd1.Dir = bc.pluginDir
@@ -689,9 +702,11 @@ func (bc *buildCmdT) buildPlugin() string {
 	timing.copyFilesStart = time.Now()
 	files := bc.collectFiles()
 	bc.copyFiles(files)
+	panicIfInterrupted()
 	timing.copyFiles = time.Since(timing.copyFilesStart)
 
 	completePlugin(buildCompletePluginArgs(bc, false, false, nil))
+	panicIfInterrupted()
 
 	outputFileName := filepath.Base(bc.pluginDir) + hutils.FileNameExt
 	outputFile := filepath.Join(bc.outputDir, outputFileName)
@@ -1064,11 +1079,7 @@ func completePlugin(args completePluginArgs) {
 		if len(pkg.GoFiles) == 0 {
 			continue
 		}
-		select {
-		case <-interruptProgram:
-			return
-		default:
-		}
+		panicIfInterrupted()
 		dir := filepath.Dir(pkg.GoFiles[0])
 		for _, synt := range pkg.Syntax {
 			for _, decl := range synt.Decls {
@@ -1161,11 +1172,7 @@ func completePlugin(args completePluginArgs) {
 	genHotswapMain(args, livePackages, &generated)
 
 	for k, pkg := range livePackages {
-		select {
-		case <-interruptProgram:
-			return
-		default:
-		}
+		panicIfInterrupted()
 		genHotswapLive(args, k, pkg, liveFuncs[k], liveTypes[k], &generated)
 	}
 
-- 
2.43.0


From f5b049f28faa15fcc10b131781f40c14afffb0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 17/24] fix: never take generated functions for live functions

---
 cli/hotswap/cmd/build.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 367a06e..5502c9f 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1055,6 +1055,7 @@ func completePlugin(args completePluginArgs) {
 	}
 
 	var cfg packages.Config
+	cfg.Fset = token.NewFileSet()
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
 	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
 	if err != nil {
@@ -1082,6 +1083,9 @@ func completePlugin(args completePluginArgs) {
 		panicIfInterrupted()
 		dir := filepath.Dir(pkg.GoFiles[0])
 		for _, synt := range pkg.Syntax {
+			if _, ok := hotswapFiles[filepath.Base(cfg.Fset.File(synt.Pos()).Name())]; ok {
+				continue
+			}
 			for _, decl := range synt.Decls {
 				if funcDecl, ok := decl.(*ast.FuncDecl); ok {
 					if funcDecl.Recv != nil {
-- 
2.43.0


From 56e85dc8988829b64f849cb2d27a1d23515aea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 18/24] fix: name the private copy of a plugin by its whole
 checksum

Two builds whose 32-bit short checksums collide got the same copy when they
were loaded within the same second: the copy in use was overwritten and the
old code was taken for the new one.
---
 pluginManager.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index cfb0642..12b3731 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -17,7 +17,6 @@ import (
 	"github.com/edwingeng/hotswap/internal/hutils"
 	"github.com/edwingeng/hotswap/vault"
 	"github.com/edwingeng/slog"
-	"github.com/pierrec/xxHash/xxHash32"
 )
 
 type PluginManager struct {
@@ -164,8 +163,7 @@ func (pm *PluginManager) copyPlugin(info *fileInfo) (string, error) {
 		return "", err
 	}
 
-	sum := xxHash32.Checksum(info.fileSha1[:], 0)
-	dst := filepath.Join(tmpDir, fmt.Sprintf("%s-%#8x%s", info.name, sum, hutils.FileNameExt))
+	dst := filepath.Join(tmpDir, fmt.Sprintf("%s-%x%s", info.name, info.fileSha1, hutils.FileNameExt))
 	return dst, ioutil.WriteFile(dst, info.fileData, 0644)
 }
 
-- 
2.43.0


From 6e2ba6322006ae6900a83441370635dc1b32e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 19/24] fix: never write to a plugin copy that is in use

---
 pluginManager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pluginManager.go b/pluginManager.go
index 12b3731..7b5ca7f 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -1,6 +1,7 @@
 package hotswap
 
 import (
+	"bytes"
 	"crypto/sha1"
 	"errors"
 	"fmt"
@@ -164,6 +165,10 @@ func (pm *PluginManager) copyPlugin(info *fileInfo) (string, error) {
 	}
 
 	dst := filepath.Join(tmpDir, fmt.Sprintf("%s-%x%s", info.name, info.fileSha1, hutils.FileNameExt))
+	// An earlier attempt within the same second may have opened the file, in which case it is still mapped.
+	if data, err := ioutil.ReadFile(dst); err == nil && bytes.Equal(data, info.fileData) {
+		return dst, nil
+	}
 	return dst, ioutil.WriteFile(dst, info.fileData, 0644)
 }
 
-- 
2.43.0


From 1cd3db2b66307aeaa2d88af869c2c8aa25ac731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 20/24] fix: load a build again once it is not in use any more

---
 buildMap.go             | 54 +++++++++++++++++++++++++++++++++++++++++
 pluginManager.go        | 34 ++++++++++++++++++++++----
 pluginManagerSwapper.go |  2 ++
 3 files changed, 85 insertions(+), 5 deletions(-)
 create mode 100644 buildMap.go

diff --git a/buildMap.go b/buildMap.go
new file mode 100644
index 0000000..c73ff4b
--- /dev/null
+++ b/buildMap.go
@@ -0,0 +1,54 @@
+package hotswap
+
+import (
+	"crypto/sha1"
+	"plugin"
+	"sync"
+)
+
+// buildMap keeps track of the plugin files that have been opened. The runtime refuses to open another copy
+// of a file that it has opened before. To load the same file again, e.g. after a failed reload, the plugin
+// opened in the first place has to be reused.
+type buildMap struct {
+	mu sync.Mutex
+	m  map[[sha1.Size]byte]*openedBuild
+}
+
+type openedBuild struct {
+	p     *plugin.Plugin
+	users int
+}
+
+// acquire returns the opened plugin if nobody is using it.
+func (bm *buildMap) acquire(fileSha1 [sha1.Size]byte) *plugin.Plugin {
+	bm.mu.Lock()
+	defer bm.mu.Unlock()
+	b, ok := bm.m[fileSha1]
+	if !ok || b.users > 0 {
+		return nil
+	}
+	b.users++
+	return b.p
+}
+
+// add puts down a plugin that has just been opened, one user included.
+func (bm *buildMap) add(fileSha1 [sha1.Size]byte, p *plugin.Plugin) {
+	bm.mu.Lock()
+	defer bm.mu.Unlock()
+	if b, ok := bm.m[fileSha1]; ok && b.p == p {
+		b.users++
+		return
+	}
+	if bm.m == nil {
+		bm.m = make(map[[sha1.Size]byte]*openedBuild)
+	}
+	bm.m[fileSha1] = &openedBuild{p: p, users: 1}
+}
+
+func (bm *buildMap) release(fileSha1 [sha1.Size]byte) {
+	bm.mu.Lock()
+	defer bm.mu.Unlock()
+	if b, ok := bm.m[fileSha1]; ok {
+		b.users--
+	}
+}
diff --git a/pluginManager.go b/pluginManager.go
index 7b5ca7f..e37a13a 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -23,6 +23,7 @@ import (
 type PluginManager struct {
 	slog.Logger
 	dirName string
+	builds  *buildMap
 
 	pluginMap map[string]*Plugin
 	ordered   []*Plugin
@@ -50,6 +51,7 @@ func newPluginManager(log slog.Logger, newExt func() interface{}) *PluginManager
 	return &PluginManager{
 		Logger:       log,
 		dirName:      dirName,
+		builds:       &buildMap{},
 		pluginMap:    make(map[string]*Plugin),
 		Vault:        v,
 		cbOpen:       func(*Plugin, interface{}) {},
@@ -172,6 +174,23 @@ func (pm *PluginManager) copyPlugin(info *fileInfo) (string, error) {
 	return dst, ioutil.WriteFile(dst, info.fileData, 0644)
 }
 
+func (pm *PluginManager) openPlugin(info *fileInfo) (*plugin.Plugin, error) {
+	if p := pm.builds.acquire(info.fileSha1); p != nil {
+		return p, nil
+	}
+
+	actual, err := pm.copyPlugin(info)
+	if err != nil {
+		return nil, err
+	}
+	p, err := plugin.Open(actual)
+	if err != nil {
+		return nil, err
+	}
+	pm.builds.add(info.fileSha1, p)
+	return p, nil
+}
+
 type pluginFuncItem struct {
 	symbol string
 	fn     interface{}
@@ -192,20 +211,23 @@ func makePluginFuncItemList(p *Plugin) []pluginFuncItem {
 }
 
 func (pm *PluginManager) loadPlugin(info *fileInfo, data interface{}) error {
-	actual, err := pm.copyPlugin(info)
+	opened, err := pm.openPlugin(info)
 	if err != nil {
 		return err
 	}
+	var loaded bool
+	defer func() {
+		if !loaded {
+			pm.builds.release(info.fileSha1)
+		}
+	}()
 
 	p := newPlugin()
 	p.Name = info.name
 	p.File = info.file
 	p.FileSha1 = info.fileSha1
 	p.When = pm.when
-	p.P, err = plugin.Open(actual)
-	if err != nil {
-		return err
-	}
+	p.P = opened
 	pm.cbOpen(p, data)
 
 	var a = makePluginFuncItemList(p)
@@ -233,6 +255,7 @@ func (pm *PluginManager) loadPlugin(info *fileInfo, data interface{}) error {
 	}
 
 	pm.pluginMap[name2key(p.Name)] = p
+	loaded = true
 	return nil
 }
 
@@ -501,6 +524,7 @@ func (pm *PluginManager) invokeEveryOnFree() {
 		}()
 		pm.Debugf("<hotswap> invoking %s.OnFree", p.Name)
 		p.freeOnce.Do(func() {
+			defer pm.builds.release(p.FileSha1)
 			p.fOnFree()
 		})
 	}
diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index aef07c2..f0f0f4c 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -48,6 +48,7 @@ type PluginManagerSwapper struct {
 
 	staticPlugins map[string]*StaticPlugin
 	reloadCounter int64
+	builds        buildMap
 
 	mu sync.Mutex
 }
@@ -135,6 +136,7 @@ func (sw *PluginManagerSwapper) loadPluginFiles(files []string, data interface{}
 
 	oldManager := sw.Current()
 	newManager := newPluginManager(sw.Logger, sw.opts.newExt)
+	newManager.builds = &sw.builds
 	if err := newManager.loadPlugins(files, oldManager, data); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 98c44c5959b80642b27037a90c6c4dc0d04fedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:44 +0000
Subject: [PATCH 21/24] fix: refuse a build that is still in use also within
 the same second

---
 buildMap.go      | 11 ++++++-----
 pluginManager.go |  4 +++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/buildMap.go b/buildMap.go
index c73ff4b..346a9a4 100644
--- a/buildMap.go
+++ b/buildMap.go
@@ -31,18 +31,19 @@ func (bm *buildMap) acquire(fileSha1 [sha1.Size]byte) *plugin.Plugin {
 	return b.p
 }
 
-// add puts down a plugin that has just been opened, one user included.
-func (bm *buildMap) add(fileSha1 [sha1.Size]byte, p *plugin.Plugin) {
+// add puts down a plugin that has just been opened, one user included. It returns false if the plugin is
+// the one that somebody is using. That happens when the same file is opened twice within a second.
+func (bm *buildMap) add(fileSha1 [sha1.Size]byte, p *plugin.Plugin) bool {
 	bm.mu.Lock()
 	defer bm.mu.Unlock()
-	if b, ok := bm.m[fileSha1]; ok && b.p == p {
-		b.users++
-		return
+	if b, ok := bm.m[fileSha1]; ok && b.p == p && b.users > 0 {
+		return false
 	}
 	if bm.m == nil {
 		bm.m = make(map[[sha1.Size]byte]*openedBuild)
 	}
 	bm.m[fileSha1] = &openedBuild{p: p, users: 1}
+	return true
 }
 
 func (bm *buildMap) release(fileSha1 [sha1.Size]byte) {
diff --git a/pluginManager.go b/pluginManager.go
index e37a13a..133d476 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -187,7 +187,9 @@ func (pm *PluginManager) openPlugin(info *fileInfo) (*plugin.Plugin, error) {
 	if err != nil {
 		return nil, err
 	}
-	pm.builds.add(info.fileSha1, p)
+	if !pm.builds.add(info.fileSha1, p) {
+		return nil, fmt.Errorf("the plugin is still in use: %s", info.file)
+	}
 	return p, nil
 }
 
-- 
2.43.0


From 743f49ab867937a1295ec7000f8b30e470049157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:48 +0000
Subject: [PATCH 22/24] fix: link live names in nested internal packages

---
 cli/hotswap/cmd/build.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 5502c9f..4b4d4ab 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -970,9 +970,14 @@ func genHotswapBureau(args completePluginArgs, generated *generatedFiles) {
 func genHotswapMain(args completePluginArgs, livePackages map[string]*packages.Package, generated *generatedFiles) {
 	var a []string
 	for _, pkg := range livePackages {
-		if pkg.PkgPath != args.tmpPkgPath {
-			a = append(a, pkg.PkgPath)
+		if pkg.PkgPath == args.tmpPkgPath {
+			continue
+		}
+		// Only the packages around a nested internal directory can import what is in it.
+		if strings.Contains(strings.TrimPrefix(pkg.PkgPath, args.tmpPkgPath+"/")+"/", "/internal/") {
+			continue
 		}
+		a = append(a, pkg.PkgPath)
 	}
 	sort.Strings(a)
 
-- 
2.43.0


From ea9a1e4a7f33124146f4b6f2ee39df604ae81e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:48 +0000
Subject: [PATCH 23/24] fix: find live names in files selected by build tags

---
 cli/hotswap/cmd/build.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 4b4d4ab..4785a89 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1049,6 +1049,25 @@ func genHotswapLive(args completePluginArgs, dir string, pkg *packages.Package,
 	generated.add(file, false)
 }
 
+// fileSelectionFlags picks out the build flags that decide which files are compiled.
+func fileSelectionFlags(buildFlags []string) []string {
+	var a []string
+	for i, f := range buildFlags {
+		if !strings.HasPrefix(f, "-") {
+			continue
+		}
+		switch name := strings.TrimPrefix(f[1:], "-"); {
+		case name == "tags":
+			if i+1 < len(buildFlags) {
+				a = append(a, "-tags="+buildFlags[i+1])
+			}
+		case strings.HasPrefix(name, "tags="), name == "race", name == "msan", name == "asan":
+			a = append(a, "-"+name)
+		}
+	}
+	return a
+}
+
 func completePlugin(args completePluginArgs) {
 	timing.processPackagesStart = time.Now()
 	defer func() {
@@ -1062,6 +1081,7 @@ func completePlugin(args completePluginArgs) {
 	var cfg packages.Config
 	cfg.Fset = token.NewFileSet()
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
+	cfg.BuildFlags = fileSelectionFlags(g.BuildFlags)
 	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 5da68672b174f34a56fa49739c34bbd1758206ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:20 +0000
Subject: [PATCH 24/24] fix: accept plugin directories with generators in them

---
 internal/hutils/hutils.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 2c3232b..2f1cbe0 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"io/ioutil"
@@ -51,6 +52,18 @@ func PackageFromDirectory(dir string) (string, string, error) {
 			delete(pkgs, name)
 		}
 	}
+	if len(pkgs) > 1 {
+		// Generators and the like are not part of the package.
+		var built []string
+		for name, pkg := range pkgs {
+			if !isExcludedPackage(pkg) {
+				built = append(built, name)
+			}
+		}
+		if len(built) == 1 {
+			pkgs = map[string]*ast.Package{built[0]: pkgs[built[0]]}
+		}
+	}
 
 	var pkgName string
 	switch n := len(pkgs); n {
@@ -128,6 +141,15 @@ func isExternalTestPackage(name string, pkg *ast.Package) bool {
 	return true
 }
 
+func isExcludedPackage(pkg *ast.Package) bool {
+	for file := range pkg.Files {
+		if ok, err := build.Default.MatchFile(filepath.Dir(file), filepath.Base(file)); err != nil || ok {
+			return false
+		}
+	}
+	return true
+}
+
 func Gofmt(file string) error {
 	cmd := exec.Command("gofmt", "-w", file)
 	cmd.Stdout = os.Stdout
-- 
2.43.0

