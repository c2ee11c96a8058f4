From a712acdfa151ef592494df7c8fe44f3ac75ea6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 01/24] fix: accept --output-dir for chunked output

The case for chunked output fell through to the error for file output, and
a relative directory without a parent component was rejected.
---
 src/quickbook.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index cc8fe0d..8826f27 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -617,12 +617,14 @@ int main(int argc, char* argv[])
                         quickbook::detail::command_line_to_path(
                             vm["output-dir"].as<command_line_string>());
 
-                    if (!fs::is_directory(options.output_path.parent_path())) {
+                    fs::path parent = options.output_path.parent_path();
+                    if (!parent.empty() && !fs::is_directory(parent)) {
                         quickbook::detail::outerr()
                             << "parent directory not found for output directory"
                             << std::endl;
                         ++error_count;
                     }
+                    break;
                 }
                 case quickbook::parse_document_options::output_file:
                     quickbook::detail::outerr()
-- 
2.43.0


From 504ca123d92163b8f54fcbd721cac71782c98f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 02/24] fix: don't assert that the chunked output directory
 already exists

---
 src/quickbook.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 8826f27..96a1e23 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -704,7 +704,9 @@ int main(int argc, char* argv[])
                 // should be in filein's directory.
                 // If output_path was explicitly specified, then it's already
                 // been checked.
-                assert(error_count || fs::is_directory(options.xinclude_base));
+                // Don't assert that it's a directory though: for chunked
+                // output it's only created when the output is written, and
+                // the file system can change at any time.
             }
 
             if (vm.count("image-location")) {
-- 
2.43.0


From 58cfaaaf5a7fb099e11fccf701ca9aad94a49c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 03/24] fix: don't invalidate footnote iterators when footnotes
 are nested

---
 src/bb2html.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 44c8e75..fb18b79 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -530,17 +530,18 @@ namespace quickbook
                 tag_end(gen.printer);
                 gen.printer.html += "<br/>";
                 gen.printer.html += "<hr/>";
-                for (std::vector<xml_element*>::iterator it =
-                         gen.chunk.footnotes.begin();
-                     it != gen.chunk.footnotes.end(); ++it) {
+                // Generating a footnote's contents can add more footnotes (when
+                // they're nested), so don't use iterators here.
+                for (std::size_t i = 0; i < gen.chunk.footnotes.size(); ++i) {
+                    xml_element* footnote = gen.chunk.footnotes[i];
                     auto footnote_id =
-                        (*it)->get_attribute("(((footnote-id)))");
+                        footnote->get_attribute("(((footnote-id)))");
                     tag_start(gen.printer, "div");
                     tag_attribute(gen.printer, "id", footnote_id);
                     tag_attribute(gen.printer, "class", "footnote");
                     tag_end(gen.printer);
 
-                    generate_children_html(gen, *it);
+                    generate_children_html(gen, footnote);
                     close_tag(gen.printer, "div");
                 }
                 close_tag(gen.printer, "div");
-- 
2.43.0


From 74ccc6a9c83e219db80eb1d6f995f048c9075943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 04/24] fix: detect output lost when flushing or closing a file

The document, HTML pages and dependency files were only checked before
the stream's buffer was flushed, so a full disk or a failing close went
unnoticed and quickbook exited with status 0.
---
 src/bb2html.cpp            | 1 +
 src/dependency_tracker.cpp | 8 +++++++-
 src/quickbook.cpp          | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index fb18b79..60f2ecf 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -725,6 +725,7 @@ namespace quickbook
             }
 
             fileout << html;
+            fileout.close();
 
             if (fileout.fail()) {
                 ::quickbook::detail::outerr(path)
diff --git a/src/dependency_tracker.cpp b/src/dependency_tracker.cpp
index 5f50352..d2b850f 100644
--- a/src/dependency_tracker.cpp
+++ b/src/dependency_tracker.cpp
@@ -91,8 +91,14 @@ namespace quickbook
                 quickbook::detail::path_to_generic(file_out));
         }
 
-        out.exceptions(std::ios::badbit);
         write_dependencies(out, f);
+        out.close();
+
+        if (out.fail()) {
+            throw std::runtime_error(
+                "Error writing dependency file " +
+                quickbook::detail::path_to_generic(file_out));
+        }
     }
 
     void dependency_tracker::write_dependencies(std::ostream& out, flags f)
diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 96a1e23..1359054 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -240,6 +240,7 @@ namespace quickbook
                 }
 
                 fileout << stage2;
+                fileout.close();
 
                 if (fileout.fail()) {
                     ::quickbook::detail::outerr()
-- 
2.43.0


From 77fbf7ec72efd83808b69055fffe55e3fcd71ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 05/24] fix: don't return the number of failed pages as the
 exit status

It wraps around, so 256 errors looked like success.
---
 src/bb2html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 60f2ecf..393d64b 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -258,7 +258,7 @@ namespace quickbook
             if (chunked.root()) {
                 generate_chunks(state, chunked.root());
             }
-            return state.error_count;
+            return state.error_count ? 1 : 0;
         }
 
         void gather_chunk_ids(chunk_state& c_state, xml_element* x)
-- 
2.43.0


From b2bbf7055382d44fe840ba28c74095041215c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 06/24] fix: don't drop text when an allocation fails while
 formatting it

Streams swallow exceptions unless told otherwise, so running out of memory
while writing to a collector silently truncated the document.
---
 src/collector.cpp        | 3 +++
 src/doc_info_actions.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/collector.cpp b/src/collector.cpp
index 31324ab..0ff8075 100644
--- a/src/collector.cpp
+++ b/src/collector.cpp
@@ -16,6 +16,9 @@ namespace quickbook
         , stream_ptr(
               new ostream(boost::iostreams::back_inserter(*buffer_ptr.get())))
     {
+        // Otherwise the stream swallows exceptions (e.g. std::bad_alloc), and
+        // quietly drops everything that's written to it afterwards.
+        stream_ptr->exceptions(std::ios::badbit);
     }
 
     string_stream::string_stream(string_stream const& other)
diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 1472eed..cec6ec9 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -446,6 +446,7 @@ namespace quickbook
         state.out << "    xmlns:xi=\"http://www.w3.org/2001/XInclude\">\n";
 
         std::ostringstream tmp;
+        tmp.exceptions(std::ios::badbit);
 
         if (!info.authors.empty()) {
             tmp << "    <authorgroup>\n";
-- 
2.43.0


From ab90610d148968510c233c0fa852b8067b749374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 07/24] fix: don't abort when an exception's message isn't
 ASCII

Writing a char const* asserts that it's ASCII, but what() of a filesystem
error contains the path.
---
 src/quickbook.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 1359054..dbe13bf 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -192,7 +192,7 @@ namespace quickbook
             detail::outerr(filein_) << e.what() << std::endl;
             result = 1;
         } catch (std::runtime_error& e) {
-            detail::outerr() << e.what() << std::endl;
+            detail::outerr() << quickbook::string_view(e.what()) << std::endl;
             result = 1;
         }
 
@@ -774,7 +774,8 @@ int main(int argc, char* argv[])
     }
 
     catch (std::exception& e) {
-        quickbook::detail::outerr() << e.what() << "\n";
+        quickbook::detail::outerr()
+            << quickbook::string_view(e.what()) << "\n";
         return 1;
     }
 
-- 
2.43.0


From 12c8095ac421fddc5d84165fc23a4d05556281f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 08/24] fix: don't keep the locations file open while it's
 written again

---
 src/quickbook.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index dbe13bf..a316b77 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -184,7 +184,6 @@ namespace quickbook
             }
 
             if (!options_.locations_out.empty()) {
-                fs::ofstream out(options_.locations_out);
                 state.dependencies.write_dependencies(
                     options_.locations_out, dependency_tracker::checked);
             }
-- 
2.43.0


From 3dc2568e482ae49d5f6457fe25432f98bfb5d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 09/24] fix: report an error when an SVG file can't be read

Otherwise the document silently loses the size of the image.
---
 src/actions.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index e53bbde..d024e30 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -988,9 +988,19 @@ namespace quickbook
             std::string svg_text;
             if (state.dependencies.add_dependency(img)) {
                 fs::ifstream fs(img);
-                std::stringstream buffer;
-                buffer << fs.rdbuf();
-                svg_text = buffer.str();
+                char buffer[4096];
+                while (fs.read(buffer, sizeof(buffer)), fs.gcount() > 0) {
+                    svg_text.append(
+                        buffer, static_cast<std::size_t>(fs.gcount()));
+                }
+
+                if (!fs.is_open() || fs.bad()) {
+                    detail::outerr(
+                        attributes["fileref"].get_file(),
+                        attributes["fileref"].get_position())
+                        << "Unable to read image file: " << img << std::endl;
+                    ++state.error_count;
+                }
             }
 
             //
-- 
2.43.0


From 97d7f884c303d4b4a69817ff7d35bf5aa3d822dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 10/24] fix: don't read past the end of an SVG header with an
 unterminated attribute

---
 src/actions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index d024e30..c312beb 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1019,7 +1019,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentwidth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
@@ -1029,7 +1029,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentdepth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
-- 
2.43.0


From 943603364a2fe8373ea2d03ad8c0244dff6c75d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:59 +0000
Subject: [PATCH 11/24] fix: map positions in unindented code with leading
 blank lines

The blank lines are dropped, but the source map still started at them, so
positions were wrong and the consistency assertion failed.
---
 src/files.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index 2a1b033..bcb6bd7 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -589,7 +589,9 @@ namespace quickbook
 
         unindented_program.append(program.begin() + copy_start, program.end());
 
-        data->new_file->add_indented_mapped_file_section(x.begin());
+        // The leading blank lines aren't part of the mapped text.
+        data->new_file->add_indented_mapped_file_section(
+            x.begin() + text_start);
         data->new_file->source_.append(unindented_program);
     }
 
-- 
2.43.0


From b4c0177d1e4cc25a39f559954b95e1f1b9f89dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:16 +0000
Subject: [PATCH 12/24] fix: report footnotes in the main document info instead
 of crashing

They're parsed before the document has been started, so there was nothing
to attach their id to.
---
 src/actions.cpp        | 10 ++++++++++
 src/document_state.cpp |  2 ++
 src/document_state.hpp |  1 +
 3 files changed, 13 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index c312beb..0e4b2a2 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -346,6 +346,16 @@ namespace quickbook
 
     void footnote_action(quickbook::state& state, value phrase)
     {
+        // There's nothing to attach the id to in the main file's document
+        // info, it's parsed before the document is started.
+        if (!state.document.in_file()) {
+            detail::outerr(state.current_file->path)
+                << "Footnotes aren't supported in the document info."
+                << std::endl;
+            ++state.error_count;
+            return;
+        }
+
         write_anchors(state, state.phrase);
 
         value_consumer values = phrase;
diff --git a/src/document_state.cpp b/src/document_state.cpp
index aaf872e..4fdddde 100644
--- a/src/document_state.cpp
+++ b/src/document_state.cpp
@@ -149,6 +149,8 @@ namespace quickbook
 
     void document_state::end_section() { return state->end_section(); }
 
+    bool document_state::in_file() const { return !!state->current_file; }
+
     int document_state::section_level() const
     {
         return state->current_file->document->current_section->level;
diff --git a/src/document_state.hpp b/src/document_state.hpp
index a2e056a..e13e70e 100644
--- a/src/document_state.hpp
+++ b/src/document_state.hpp
@@ -72,6 +72,7 @@ namespace quickbook
             id_category,
             source_mode_info const&);
         void end_section();
+        bool in_file() const;
         int section_level() const;
         value const& explicit_id() const;
         source_mode_info section_source_mode() const;
-- 
2.43.0


From 1e577752f5d9bd424e7a60e90d1adc5d5495d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:55 +0000
Subject: [PATCH 13/24] fix: report a position in an empty snippet without
 asserting

---
 src/files.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/files.cpp b/src/files.cpp
index bcb6bd7..640eb0e 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -597,6 +597,11 @@ namespace quickbook
 
     file_position mapped_file::position_of(string_iterator pos) const
     {
+        // An empty file (e.g. an empty snippet) might not be mapped at all.
+        if (mapped_sections.empty()) {
+            return original->position_of(original->source().begin());
+        }
+
         return original->position_of(
             original->source().begin() +
             to_original_pos(find_section(pos), pos - source().begin()));
-- 
2.43.0


From 157e0c7068b07938647c60aaf9c130671688dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 14/24] fix: report files that include themselves instead of
 overflowing the stack

---
 src/actions.cpp    | 5 +++++
 src/state.cpp      | 3 +++
 src/state.hpp      | 2 ++
 src/state_save.hpp | 1 +
 4 files changed, 11 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index 0e4b2a2..193d15b 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1835,6 +1835,11 @@ namespace quickbook
                     : qbk_version_n >= 106u ? state_save::scope_callables
                                             : state_save::scope_macros);
 
+            ++state.include_depth;
+            if (state.include_depth > state.max_include_depth) {
+                throw load_error("Infinite loop of included files detected.");
+            }
+
             state.current_file = load(path.file_path); // Throws load_error
             state.current_path = path;
             state.imported = (load_type == block_tags::import);
diff --git a/src/state.cpp b/src/state.cpp
index 04ff6a6..e9685b0 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -52,6 +52,7 @@ namespace quickbook
         , strict_mode(false)
 
         , imported(false)
+        , include_depth(0)
         , macro()
         , source_mode()
         , source_mode_next()
@@ -157,6 +158,7 @@ namespace quickbook
         , source_mode(state.source_mode)
         , macro()
         , template_depth(state.template_depth)
+        , include_depth(state.include_depth)
         , min_section_level(state.min_section_level)
     {
         if (scope & scope_macros) macro = state.macro;
@@ -182,6 +184,7 @@ namespace quickbook
         if (scope & scope_templates) state.templates.pop();
         if (scope & scope_macros) state.macro = macro;
         boost::core::invoke_swap(state.template_depth, template_depth);
+        boost::core::invoke_swap(state.include_depth, include_depth);
         boost::core::invoke_swap(state.min_section_level, min_section_level);
     }
 }
diff --git a/src/state.hpp b/src/state.hpp
index 022d262..245b967 100644
--- a/src/state.hpp
+++ b/src/state.hpp
@@ -45,6 +45,7 @@ namespace quickbook
         typedef std::vector<std::string> string_list;
 
         static int const max_template_depth = 100;
+        static int const max_include_depth = 100;
 
         // global state
         unsigned order_pos;
@@ -63,6 +64,7 @@ namespace quickbook
 
         // state saved for files and templates.
         bool imported;
+        int include_depth;
         string_symbols macro;
         source_mode_info source_mode;
         source_mode_type source_mode_next;
diff --git a/src/state_save.hpp b/src/state_save.hpp
index 8f76bad..d6f8834 100644
--- a/src/state_save.hpp
+++ b/src/state_save.hpp
@@ -44,6 +44,7 @@ namespace quickbook
         source_mode_info source_mode;
         string_symbols macro;
         int template_depth;
+        int include_depth;
         int min_section_level;
 
       private:
-- 
2.43.0


From c625c0e081fe3e0dca750141fd09212e8d77753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:32 +0000
Subject: [PATCH 15/24] fix: end the message about an empty path with a new
 line

---
 src/include_paths.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include_paths.cpp b/src/include_paths.cpp
index 80cd5e3..ef927d1 100644
--- a/src/include_paths.cpp
+++ b/src/include_paths.cpp
@@ -33,8 +33,7 @@ namespace quickbook
             std::string path_text = path.get_encoded();
             if (path_text.empty()) {
                 detail::outerr(path.get_file(), path.get_position())
-                    << "Empty path argument"
-                    << "std::endl";
+                    << "Empty path argument" << std::endl;
                 ++state.error_count;
                 return path_parameter(path_text, path_parameter::invalid);
             }
-- 
2.43.0


From e1034a5d4beb56acbe90e10d85351b1acfa52979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:26 +0000
Subject: [PATCH 16/24] fix: record the pattern a glob in a template really
 searches

A glob in a template defined in another directory is searched relative to
the file that calls the template, but the dependency recorded for it was
relative to the file that defines the template.
---
 src/include_paths.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include_paths.cpp b/src/include_paths.cpp
index ef927d1..33553a7 100644
--- a/src/include_paths.cpp
+++ b/src/include_paths.cpp
@@ -195,7 +195,8 @@ namespace quickbook
             // If the path has some glob match characters
             // we do a discovery of all the matches..
             {
-                fs::path current = state.current_file->path.parent_path();
+                fs::path current =
+                    state.current_path.parent_path().file_path;
 
                 // Search for the current dir accumulating to the result.
                 state.dependencies.add_glob(current / parameter.value);
-- 
2.43.0


From 11ee7d0ce99d0fdb45f6f67ac1f2bcc81855b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:39 +0000
Subject: [PATCH 17/24] fix: a callout that nothing points to crashed HTML
 output

---
 src/bb2html.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 393d64b..3fa3bc6 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1329,13 +1329,19 @@ namespace quickbook
                                              link->second.path(), gen.path));
                 tag_end(gen.printer);
             }
-            graphics_tag(
-                gen,
-                "/callouts/" +
-                    boost::lexical_cast<std::string>(data->second.number) +
-                    ".png",
-                "(" + boost::lexical_cast<std::string>(data->second.number) +
-                    ")");
+            if (data != gen.chunk.callout_numbers.end()) {
+                graphics_tag(
+                    gen,
+                    "/callouts/" +
+                        boost::lexical_cast<std::string>(data->second.number) +
+                        ".png",
+                    "(" +
+                        boost::lexical_cast<std::string>(data->second.number) +
+                        ")");
+            }
+            else {
+                gen.printer.html += "(0)";
+            }
             if (link != gen.state.ids.end()) {
                 close_tag(gen.printer, "a");
             }
-- 
2.43.0


From 3f62dbbc32e7a83544f844f7e8cc94d498f1a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:39 +0000
Subject: [PATCH 18/24] fix: report a template redefinition as the error it is
 counted as

---
 src/actions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 193d15b..714e488 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1116,7 +1116,7 @@ namespace quickbook
         if (!state.templates.add(template_symbol(
                 identifier, template_values, body,
                 &state.templates.top_scope()))) {
-            detail::outwarn(body.get_file(), body.get_position())
+            detail::outerr(body.get_file(), body.get_position())
                 << "Template Redefinition: " << identifier << std::endl;
             ++state.error_count;
         }
-- 
2.43.0


From bc8269632f153739861f23380a3e4849a92e7982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:40 +0000
Subject: [PATCH 19/24] fix: stop expanding templates once an infinite loop was
 found

A template that calls itself more than once was expanded an exponential
number of times, up to the maximum depth, with an error for each of them.
---
 src/actions.cpp | 12 ++++++++++--
 src/state.cpp   |  1 +
 src/state.hpp   |  4 ++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 714e488..bb010a1 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -661,7 +661,7 @@ namespace quickbook
 
             {
                 state_save save(*this, state_save::scope_all);
-                ++template_depth;
+                if (++template_depth == 1) template_loop = false;
 
                 bool r = parse_template(callout_body, *this);
 
@@ -1322,11 +1322,19 @@ namespace quickbook
 
             qbk_version_n = symbol->content.get_file()->version();
 
-            ++state.template_depth;
+            if (++state.template_depth == 1) state.template_loop = false;
+
+            // Once a loop has been found, don't expand any more templates
+            // until the outermost one is finished. A template that calls
+            // itself several times would otherwise be expanded an exponential
+            // number of times.
+            if (state.template_loop) return;
+
             if (state.template_depth > state.max_template_depth) {
                 detail::outerr(state.current_file, first)
                     << "Infinite loop detected" << std::endl;
                 ++state.error_count;
+                state.template_loop = true;
                 return;
             }
 
diff --git a/src/state.cpp b/src/state.cpp
index e9685b0..1ad6407 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -62,6 +62,7 @@ namespace quickbook
 
         , template_depth(0)
         , min_section_level(1)
+        , template_loop(false)
 
         , in_list(false)
         , in_list_save()
diff --git a/src/state.hpp b/src/state.hpp
index 245b967..349addb 100644
--- a/src/state.hpp
+++ b/src/state.hpp
@@ -77,6 +77,10 @@ namespace quickbook
         int template_depth;
         int min_section_level;
 
+        // set when templates are nested too deeply, until the outermost
+        // template is finished.
+        bool template_loop;
+
         // output state - scoped by templates and grammar
         bool in_list;                  // generating a list
         std::stack<bool> in_list_save; // save the in_list state
-- 
2.43.0


From 0c62d42808d87befd8d4d8dc1381080bf1370f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:47 +0000
Subject: [PATCH 20/24] fix: initialise the block flag before it is saved and
 restored

---
 src/main_grammar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 6d9368f..e18161d 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -153,6 +153,7 @@ namespace quickbook
             , no_eols(true)
             , context(element_info::in_top_level)
             , mark('\0')
+            , still_in_block(false)
             , state_(state)
         {
         }
-- 
2.43.0


From 31c63f6e0f6af780c8cf54a9e51d5ea4e3be19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:06 +0000
Subject: [PATCH 21/24] fix: escape characters above 127 in URIs by their
 value, not by what precedes a table

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3a6b058..49c4577 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -195,8 +195,8 @@ namespace quickbook
                      !(n + 2 < uri_param.size() &&
                        std::strchr(hex, uri_param[n + 1]) &&
                        std::strchr(hex, uri_param[n + 2])))) {
-                    char escape[] = {'%', hex[uri_param[n] / 16],
-                                     hex[uri_param[n] % 16], '\0'};
+                    unsigned char c = static_cast<unsigned char>(uri_param[n]);
+                    char escape[] = {'%', hex[c / 16], hex[c % 16], '\0'};
                     uri += escape;
                 }
                 else {
-- 
2.43.0


From 9c6805116c226d72f185dd15a3f251d68d597480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:39 +0000
Subject: [PATCH 22/24] fix: map the end of a snippet's text without asserting

---
 src/files.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index 640eb0e..ea1eab2 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -334,8 +334,11 @@ namespace quickbook
                 original_line =
                     skip_indentation(original->source(), original_line);
 
-                // Confirm that we are actually in the same position.
-                assert(original->source()[original_line] == source()[our_line]);
+                // Confirm that we are actually in the same position (there's
+                // nothing to compare at the end of the text).
+                assert(
+                    our_line == source().size() ||
+                    original->source()[original_line] == source()[our_line]);
 
                 // Calculate the position
                 return original_line + (pos - our_line);
-- 
2.43.0


From 4758fea18b26a98d06f5e26c3479df0f96b012f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:01 +0000
Subject: [PATCH 23/24] fix: report problems in command line definitions
 instead of crashing

---
 src/quickbook.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index a316b77..36d74ba 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -61,8 +61,13 @@ namespace quickbook
     static void set_macros(quickbook::state& state)
     {
         QUICKBOOK_FOR (quickbook::string_view val, preset_defines) {
-            parse_iterator first(val.begin());
-            parse_iterator last(val.end());
+            // The definition is parsed as a file of its own, so that problems
+            // in it can be reported.
+            state.current_file =
+                new file("<command line>", val, qbk_version_n);
+
+            parse_iterator first(state.current_file->source().begin());
+            parse_iterator last(state.current_file->source().end());
 
             cl::parse_info<parse_iterator> info =
                 cl::parse(first, last, state.grammar().command_line_macro);
@@ -73,6 +78,8 @@ namespace quickbook
                 ++state.error_count;
             }
         }
+
+        state.current_file = file_ptr();
     }
 
     ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From e107a863ef1e93c758e3e13ed37c8b283d36380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:43 +0000
Subject: [PATCH 24/24] fix: let a file be used with different versions

A file without a version of its own that was included from files with
different versions failed an assertion, and code imported by such files
was used with the version of the first of them.
---
 src/files.cpp | 16 +++++++++-------
 src/files.hpp |  3 ---
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index ea1eab2..b29bc6c 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -23,7 +23,8 @@ namespace quickbook
 {
     namespace
     {
-        boost::unordered_map<fs::path, file_ptr> files;
+        // The text of every file that was loaded.
+        boost::unordered_map<fs::path, std::string> sources;
     }
 
     // Read the first few bytes in a file to see it starts with a byte order
@@ -109,10 +110,10 @@ namespace quickbook
 
     file_ptr load(fs::path const& filename, unsigned qbk_version)
     {
-        boost::unordered_map<fs::path, file_ptr>::iterator pos =
-            files.find(filename);
+        boost::unordered_map<fs::path, std::string>::iterator pos =
+            sources.find(filename);
 
-        if (pos == files.end()) {
+        if (pos == sources.end()) {
             fs::ifstream in(filename, std::ios_base::in);
 
             if (!in) throw load_error("Could not open input file.");
@@ -129,13 +130,14 @@ namespace quickbook
 
             bool inserted;
 
-            boost::tie(pos, inserted) = files.emplace(
-                filename, new file(filename, source, qbk_version));
+            boost::tie(pos, inserted) = sources.emplace(filename, source);
 
             assert(inserted);
         }
 
-        return pos->second;
+        // The same file can be used several times with different versions, so
+        // each use gets a file object of its own.
+        return file_ptr(new file(filename, pos->second, qbk_version));
     }
 
     std::ostream& operator<<(std::ostream& out, file_position const& x)
diff --git a/src/files.hpp b/src/files.hpp
index 4ff669d..d82effb 100644
--- a/src/files.hpp
+++ b/src/files.hpp
@@ -98,9 +98,6 @@ namespace quickbook
 
         void version(unsigned v)
         {
-            // Check that either version hasn't been set, or it was
-            // previously set to the same version (because the same
-            // file has been loaded twice).
             assert(!qbk_version || qbk_version == v);
             qbk_version = v;
         }
-- 
2.43.0

