T = 'runtime monitoring: '
prop('C01', 'Markup parses to exactly the tag tree the text denotes',
     'For every document text, each tag written in the source appears exactly once in the parsed document, with its written name, attributes and the content up to its matching closing brace, nested and ordered as written, and all text between tags is kept verbatim and in order. The contents of literal (verbatim) tags are kept as written and never parsed, wherever the tag stands. A tag whose opening brace is never closed is rejected with an error instead of swallowing or dropping text.',
     ['inputs', 'programs'],
     'all texts over the markup alphabet, with any nesting of tags and braces, through direct parsing and through a loaded document',
     'The tests parse a few dozen fixed snippets; they cannot cover the combinations of nesting, brace-less tags, attributes, stray braces and unicode text.',
     ['tags/receivers/content.py', 'tags/tag.py', 'tags/text.py'],
     [('recursive tag scanner with brace matching', 'tags/receivers/content.py:parse_tags'), ('tag factory', 'tags/tag.py:TagFactory')],
     ['tag tree returned by the public tag constructor', 'body of a loaded document'],
     technique=T + 'reference-parser oracle over the observed tag trees of generated and hostile texts',
     note='Held on the generated texts: every tree the real parser builds is compared with an independent reference parser. Trusts harness/refparse.py; nesting of ten or more braces may be refused and is not judged.')
prop('C02', 'Attributes are read as written and selected for the right target',
     'Every keyed, quoted or positional entry of an attribute list is available with exactly the value written, in order, the last of equal keys winning. For a given output target the entry written for that target is used, otherwise the general one, and never an entry written for another target, in lookups, in filtered lists and in the rendered output. Reading or filtering attributes never changes them.',
     ['inputs', 'configurations'],
     'all attribute strings and all targets',
     'The tests check about forty literal attribute strings; the interplay of target suffixes, quoting, positional types and requested keys is combinatorial.',
     ['attributes/attributes.py', 'utils/types.py', 'tags/tag.py', 'formats/xhtml.py', 'formats/tex.py'],
     [('attribute scanner', 'attributes/attributes.py:Attributes.load'), ('target selection', 'attributes/attributes.py:Attributes.find_item, filter'), ('suffix stripping', 'attributes/attributes.py:strip_attr')],
     ['attributes object', 'attributes of rendered elements'],
     technique=T + 'executable model of attribute selection as oracle over observed lookups, filters and rendered elements',
     note='Held on the generated attribute strings, against an independent reader and selection model. Values that themselves end in a target suffix and nested quotes at the ends of a value are not judged.')
prop('C03', 'Macros are replaced by their values to any depth, and nothing else is',
     'Wherever a defined macro is used in text, its value takes its place, including macros used inside the values of other macros to any depth and attributes of macro objects, with the nearest definition (document over parent document over defaults) winning. Names that are not defined and all other text stay exactly as they are. Substitution always ends, also for macros defined in terms of themselves.',
     ['inputs', 'programs', 'histories'],
     'all sets of macro definitions in headers and all texts using them, before and after edits',
     'The tests use single macros and one two-level chain; deeper chains, recursion, and redefinition by included documents are not reached.',
     ['utils/string.py', 'tags/receivers/macros.py', 'context/context.py', 'settings.py'],
     [('macro substitution', 'utils/string.py:replace_macros'), ('tag creation receiver', 'tags/receivers/macros.py:process_macros')],
     ['returned strings', 'bodies of loaded documents'],
     technique=T + 'reference-substitution oracle over observed results, with a termination watchdog in CPU time',
     note='Held on the generated definitions and texts. For macros that reference themselves only termination is judged.')
prop('C04', 'Header entries are inherited by subdocuments and never leak elsewhere',
     'A document sees every entry of its own header, of its template, and of its line of parents and defaults, the nearest one winning: lists are prepended, sets united, nested entries merged entry by entry, numbers and booleans converted and left unchanged when they cannot be, and targets and inactive_tags replaced. Entries that belong to one document (its includes, short title, doc_id, paths, body) are never inherited. Changing, updating or resetting one document or context never changes its parent, its siblings, the defaults or the values it was given, and a reset or reload restores exactly what the sources say.',
     ['inputs', 'histories', 'configurations'],
     'all trees of contexts and documents with any headers, and all histories of updates, resets, loads and edits',
     'The tests check single updates of one parent and one child; aliasing shows only in later steps, in another document.',
     ['context/context.py', 'document/document_context.py', 'document/receivers/process_headers.py', 'document/receivers/reset.py', 'settings.py'],
     [('matched update', 'context/context.py:BaseContext.match_update'), ('reset', 'context/context.py:BaseContext.reset'), ('header processing', 'document/receivers/process_headers.py:process_headers')],
     ['entries of all contexts after each step'],
     technique=T + 'deep-copying executable model compared with the state of all contexts after every step of recorded histories',
     note='Held on the generated histories and projects. Trusts the model in harness/checks/c04.py, which reads template context files with the code under test.')
prop('C05', 'HTML and XHTML pages hold all content once, escaped and well formed',
     'The rendered html and xhtml of a document contain all of its text exactly once and in order, inside exactly the elements its tags denote, nested as written, with the attributes that are allowed for the element and were given for the target, and nothing else. Text, attribute values and header entries are always escaped: no content can open or close elements, and xhtml pages are well-formed XML.',
     ['inputs', 'programs'],
     'all documents of text, inline, block, heading, literal, figure and symbol tags with any attributes, as elements, as strings and as built files',
     'Tests compare a few fixed snippets with fixed strings; they cannot cover the nesting of tags, hostile characters in text, attributes and titles, and both methods at once.',
     ['formats/xhtml.py', 'tags/tag.py', 'tags/text.py', 'tags/headings.py', 'tags/figs.py', 'tags/featurebox.py', 'tags/code.py', 'builders/jinja_render.py', 'settings.py'],
     [('element rendering', 'formats/xhtml.py:xhtml_tag'), ('tag rendering', 'tags/tag.py:Tag.html_fmt'), ('page rendering', 'builders/jinja_render.py:JinjaRender')],
     ['rendered elements and strings', 'built .html and .xhtml files'],
     technique=T + 'reference-renderer oracle over rendered elements, strict parsing and tag-balance monitors over built pages',
     note='Held on the generated documents, compared node by node with harness/refdoc.py.')
prop('C06', 'LaTeX and text output hold all content with the right commands',
     'The LaTeX and text output of a document contain all of its text exactly once and in order; in LaTeX every tag becomes exactly its command or environment with balanced braces around its content, literal text stays literal, and paragraphs are separated by empty lines; the text output is the content without markup.',
     ['inputs', 'programs'],
     'all documents of text, inline, block, heading, literal, figure and symbol tags, as strings and as built files',
     'Tests compare a few fixed snippets; combinations of tags, literal text with delimiters, and headings without labels are not reached.',
     ['formats/tex.py', 'tags/tag.py', 'tags/text.py', 'tags/headings.py', 'tags/featurebox.py', 'tags/code.py', 'templates/default/tex/template.tex'],
     [('commands and environments', 'formats/tex.py:tex_cmd, tex_env, tex_verb'), ('tag rendering', 'tags/tag.py:Tag.tex_fmt, default_fmt')],
     ['rendered strings', 'built .tex and .txt files'],
     technique=T + 'reference-renderer oracle over the rendered LaTeX and text of generated documents and built files',
     note='Held on the generated documents. TeX special characters in text are passed on by design.')
prop('C07', 'Blank lines make paragraphs and typographic marks are set as written',
     'In the body and in feature boxes, blank lines separate paragraphs, headings and other block tags stand outside of paragraphs, no paragraph is empty and no text is lost or moved. Double and triple hyphens become en and em dashes without surrounding blanks, straight quotes become opening or closing quotes or apostrophes by their neighbours, and literal tags are left alone. Processing a finished tree again changes nothing.',
     ['inputs', 'programs'],
     'all texts and tag trees with any blanks, breaks, dashes and quotes',
     'Tests use a handful of sentences; the interplay of dashes, quotes, breaks and tag boundaries, and repeated processing of nested tags, is not sampled.',
     ['tags/receivers/paragraphs.py', 'tags/receivers/typography.py', 'utils/string.py'],
     [('paragraph grouping', 'tags/receivers/paragraphs.py:group_paragraphs'), ('typography', 'tags/receivers/typography.py:process_tag_typography')],
     ['tag tree of bodies and documents'],
     technique=T + 'reference-rule oracle over observed paragraph and character trees, with an idempotence monitor',
     note='Held on the generated texts, against an independent implementation of the rules.')
prop('C10', 'Headings and captions are numbered completely, in order and consistently',
     'In every project each document, heading and caption gets exactly one label, in the order of the document tree and of the text, with its own title and with the numbers that follow from the counters and the reset rules of the project (label_resets), continuing across documents. The number, title and anchor shown at the heading or caption in html, xhtml, tex and txt are those of its own label, also when other documents use the same ids. An id used twice in one document is an error.',
     ['inputs', 'programs', 'histories'],
     'all projects of documents with any headings, figures, tables, ids, numbering formats and reset rules, also after edits',
     'The tests count a few headings in one or two documents; the interplay of counters, resets, shared ids and several documents is combinatorial.',
     ['label_manager/label_manager.py', 'label_manager/register_orders.py', 'label_manager/register_content_labels.py', 'tags/headings.py', 'tags/caption.py', 'tags/label.py', 'tags/utils.py', 'settings.py'],
     [('counting', 'label_manager/register_orders.py:register_orders'), ('tree numbers', 'label_manager/register_content_labels.py:register_content_labels'), ('label texts', 'tags/utils.py:format_label_tag')],
     ['labels of the label manager', 'rendered headings and captions'],
     technique=T + 'reference numbering model compared with the observed labels and with the numbers, titles and anchors in the rendered pages of generated projects and edits',
     note='Held on the generated projects. Trusts harness/reflabels.py. Headings with a short title are not judged.')
prop('C11', 'References lead to the label they name and show its text',
     'Every reference to a label of a project, in any document, shows the text of that label and links to it: the link, resolved against the page it stands in, is the file of the document that has the label, and its anchor exists exactly once there. When the other document is not rendered for the target, the text is shown without a link. A reference to a label that does not exist is an error when the project is loaded.',
     ['inputs', 'programs', 'histories'],
     'all projects with any references within and between documents in any folders, ids, doc_ids and targets, also after edits',
     'The tests reference one or two labels of the same folder; relative paths between folders, shared ids, missing targets and edits are not sampled.',
     ['tags/ref.py', 'label_manager/label_manager.py', 'label_manager/receivers.py', 'tags/label.py', 'formats/tex.py'],
     [('label lookup', 'label_manager/label_manager.py:LabelManager.get_label'), ('reference rendering', 'tags/ref.py:Ref'), ('missing labels', 'label_manager/receivers.py')],
     ['links in rendered pages, resolved against the anchors of the other pages'],
     technique=T + 'link-resolution monitor over the rendered pages of generated projects with a reference model of label texts',
     note='Held on the generated projects. Ids used by several documents are referenced together with the doc_id, as documented.')
prop('C13', 'A project loads each included document exactly once, in order',
     'The documents of a project are exactly those reachable through the include lists, each of them once, in the order and at the level where it is first included, with paths resolved against the including document. Loading always ends, also when documents include each other or themselves, and a missing include is reported as an error. Each document is written to its own files for its targets.',
     ['inputs', 'histories', 'configurations'],
     'all graphs of includes over documents in any folders, with cycles, repeated includes and different spellings of paths, also after edits',
     'The tests load three or four documents in fixed trees; cycles, diamonds and edits of the include lists are not sampled.',
     ['document/document.py', 'document/document_context.py', 'paths/paths.py', 'paths/utils.py', 'document/receivers/process_headers.py'],
     [('subdocuments', 'document/document.py:Document.load_subdocuments'), ('document list', 'document/document.py:Document.documents_list'), ('include paths', 'document/document_context.py')],
     ['documents_list, documents_by_id, levels and target paths of loaded projects'],
     technique=T + 'reference graph-walk oracle over the observed document trees of generated include graphs, with a termination watchdog',
     note='Held on the generated graphs.')
prop('C14', 'Reloading an edited project gives what loading it afresh gives',
     'After any history of edits of the files of a project (texts, headings, ids, headers, includes, added, moved and removed documents, mistakes and their repair), reloading it gives exactly the documents, header entries, labels, numbers, navigation and rendered content that loading the same files afresh gives. If loading the files is an error, reloading them is that error, as often as it is tried, and the error is gone once the files are repaired. A load without edits changes nothing.',
     ['histories', 'inputs'],
     'all histories of edits of all projects',
     'The tests make one edit of one document; stale entries, labels and numbers show up only in other documents and after several edits.',
     ['document/document.py', 'document/receivers/reset.py', 'document/receivers/process_headers.py', 'label_manager/label_manager.py', 'label_manager/receivers.py', 'tags/navigation.py', 'context/context.py'],
     [('load', 'document/document.py:Document.load'), ('reset', 'document/receivers/reset.py'), ('label updates', 'label_manager/receivers.py')],
     ['tree, contexts, labels, navigation and renderings after every step'],
     technique=T + 'differential monitor: a long-lived environment and a fresh one observed after every step of generated edit histories',
     note='Held on the generated histories; the fresh load is the oracle, so a defect of both is left to the other checks. Assumes that an edit gives a file a later modification time.')
prop('C12', 'Tables of contents and document links follow the project',
     'A table of contents lists exactly the headings, documents, figures or tables that its kinds ask for, of its document or of all documents, in the order of the document tree and of the text, each once, with the text of its label, nested by its level, and linked to the anchor of that label in the page that has it. The links to the previous and next documents lead to the neighbours in the document order, and none is given at the ends. Both follow every edit of the project and agree between html, xhtml and tex.',
     ['inputs', 'programs', 'histories'],
     'all projects with any tables of contents and links in any documents and folders, also after edits',
     'The tests list the headings of one or two documents; nesting by skipped levels, several documents in folders, abbreviated lists and edits are not sampled.',
     ['tags/toc.py', 'tags/navigation.py', 'label_manager/label_manager.py', 'formats/xhtml.py', 'formats/tex.py', 'tags/ref.py'],
     [('selection and order', 'tags/toc.py:Toc'), ('list nesting', 'formats/xhtml.py:xhtml_list, formats/tex.py'), ('neighbours', 'tags/navigation.py')],
     ['entries of the rendered tables of contents, their nesting, texts and links resolved against the pages they lead to'],
     technique=T + 'reference-model monitor: rendered tables of contents and links of generated projects and edits compared entry by entry with a model of labels',
     note='Held on the generated projects. The heading and the expanded and collapsed modifiers of @toc, which are documented but not implemented, are not judged.')
prop('C15', 'Building again leaves exactly the files of a clean build',
     'After any history of edits of the documents, headers, images and style sheets of a project, and of damage to or loss of the written pages, building it again leaves, for every file that a clean build of the same sources writes, that file with the same contents, whether the environment is kept or new. A further build without edits writes no file, and every build ends and reports that it is done.',
     ['histories', 'inputs'],
     'all histories of edits and builds of all projects and targets',
     'The tests touch one file of one document and look at a modification time; what a page depends on (headers, labels, neighbours, includes, assets, templates, other targets) is not sampled.',
     ['builders/jinja_render.py', 'builders/deciders', 'builders/composite_builders', 'builders/environment.py', 'builders/target_builders/pdf_builder.py', 'builders/target_builders/epub_builder.py', 'builders/xhtml2epub.py', 'tags/img.py', 'document/document.py'],
     [('change detection', 'builders/deciders/md5decider.py'), ('rendering', 'builders/jinja_render.py:JinjaRender'), ('orchestration', 'builders/composite_builders')],
     ['written files after every step of a history, compared with the files of a clean build of a copy'],
     technique=T + 'differential monitor: files of incremental builds along generated edit histories compared with those of clean builds, with an idle-build write monitor and a watchdog',
     note='Held on the generated histories; the clean build is the oracle.')
prop('C16', 'Images, equations and drawings are made from their own source and options',
     'In every target, the file that a page shows at the place of an image, equation or drawing was made from exactly the source and with exactly the options (scale, page, colour, environment, ...) of that tag, by the right conversions, and not from those of another tag, another document, or an earlier edit. This holds after any history of edits and builds, however the commands that make the files are timed, and for sources with spaces, quotes, dots and accents in their names.',
     ['histories', 'schedules', 'inputs'],
     'all projects with images, equations and drawings, all edits and all timings of the commands',
     'The tests convert single files, one at a time; that files of different tags, options, documents and edits stay apart cannot be sampled with single files.',
     ['builders/builder.py', 'builders/executor.py', 'builders/save_temp.py', 'builders/pdf2svg.py', 'builders/pdfcrop.py', 'builders/composite_builders', 'builders/target_builders', 'builders/scanners', 'tags/img.py', 'tags/eqs.py', 'tags/asy.py'],
     [('running of commands', 'builders/builder.py:Builder.run_cmd'), ('naming of the files', 'builders/save_temp.py, builders/target_builders/receivers.py'), ('sequences', 'builders/composite_builders/sequential_builder.py')],
     ['written pages and the files that these link to', 'log of the commands that were run'],
     technique=T + 'provenance monitor: stand-ins for the external programs record what each file is made from; the record of the file at each tag is compared with the source and options of the tag, under injected delays',
     note='Held on the generated projects, histories and delays. The external programs (pdflatex, pdf2svg, ...) are replaced with recording stand-ins, so what these draw is not judged. Two collisions of names are known findings.')
prop('C17', 'A command that fails fails the build, and what it left behind is not used',
     'When an external command of a build exits with an error, is killed, writes no file or does not end, the build ends, does not report that it is done, and its error (or status) tells the command that failed; commands that do not end are stopped after the timeout. The output of commands, of any size, never blocks a build. Once the cause is gone, by a repaired program or an edit that removes or changes the tag, the next build is done and every page shows complete files made from its own tags, also in an environment that is kept, and no half-written file of the failed build is used.',
     ['fault_sequences', 'histories', 'schedules'],
     'all failures of all commands of a build, at any point of a history of edits and builds',
     'The tests run commands that succeed, and one that fails by itself; failures in the middle of parallel chains, and the builds after these, are not sampled.',
     ['builders/builder.py', 'builders/executor.py', 'builders/jinja_render.py', 'builders/composite_builders', 'builders/environment.py', 'builders/target_builders/target_builder.py', 'tags/eqs.py'],
     [('running of commands', 'builders/executor.py:run'), ('status of a build', 'builders/builder.py:Builder.status'), ('unfinished pages', 'builders/jinja_render.py:JinjaRender.finish')],
     ['status or error of builds', 'written pages and their files', 'processes that are left'],
     technique=T + 'fault injection into the external commands (stand-ins), with a provenance monitor over the pages of the builds that follow and watchdogs for builds and processes',
     note='Held on the generated projects and faults. A command that is successful without writing is judged only if there is no older file in its place.')
prop('C18', 'A build that was killed does not spoil the builds after it',
     'If the process of a build is killed at any point, between or in the middle of writes, while commands run, once or several times, before or after edits, then the next build of the project in a new process ends, is done, and leaves for every file of a clean build that file with the same contents.',
     ['crash_points', 'histories'],
     'all points at which a build may be killed, and all projects and edits before and after',
     'The tests never interrupt a build.',
     ['builders/jinja_render.py', 'builders/deciders/md5decider.py', 'builders/builder.py', 'builders/save_temp.py', 'builders/copy.py', 'builders/xhtml2epub.py', 'builders/target_builders', 'builders/composite_builders'],
     [('change detection', 'builders/deciders/md5decider.py'), ('unfinished pages', 'builders/jinja_render.py:JinjaRender.finish')],
     ['written files after the recovery, compared with those of a clean build'],
     technique=T + 'crash injection: builds in child processes killed at chosen writes, command starts and times, with a differential monitor of the recovered files against a clean build',
     note='Held on the crash points that were tried. Kills keep the order of finished writes (no loss of power); commands of a killed build end before the next build.')
prop('C19', 'Commands that run at the same time do not disturb one another',
     'In every build, also if commands take any time, each file is written by exactly one command, once; a command only starts to read a file after the command that writes it has ended; and no two commands use a file at the same time if one of them writes it. Tags, documents and targets that share an equation, drawing or image all show the right file. A build without edits runs no command.',
     ['schedules', 'inputs', 'histories'],
     'all projects with shared images, equations and drawings, and all durations of the commands',
     'The tests build one file at a time and do not look at the order or the number of the commands.',
     ['builders/builder.py', 'builders/executor.py', 'builders/composite_builders', 'builders/target_builders', 'builders/pdf2svg.py', 'builders/asy_builders.py', 'builders/pdfrender.py', 'builders/svgrender.py'],
     [('sharing of commands', 'builders/builder.py:Builder.run_cmd'), ('order of subbuilders', 'builders/composite_builders')],
     ['log of the starts, ends, reads and writes of all commands', 'written pages and their files'],
     technique=T + 'offline checker of the log of commands (exactly once, ordering, mutual exclusion) under injected delays, with a provenance monitor over the pages',
     note='Held on the generated projects and delays; distinct overlaps are counted in the evidence.')
prop('C08', 'Lists hold their items once, in order, nested by indentation',
     'Every list holds exactly the items of its source, each once and in order, with the text and tags of the item, including its continuation lines, and at the level that follows from its indentation; blank lines, the width of the indentation and the characters in items (bullets in the middle of text, numbers, <, &, other scripts) change none of this. The html, xhtml and LaTeX lists have the same items in the same order, well formed, with a deeper item inside the list of a shallower one, an ordered list for ordered kinds, and the class that was given.',
     ['inputs', 'programs'],
     'all lists of all kinds, with any items, indentation, blank lines and continuation lines, in any document with other content',
     'The tests render a few lists of plain words; skipped and returning levels, blank lines between levels, continuation lines, tags and hostile characters in items are not sampled.',
     ['tags/list.py', 'formats/xhtml.py', 'formats/tex.py'],
     [('parsing of items', 'tags/list.py:parse_list, parse_string_list'), ('nesting', 'formats/xhtml.py:xhtml_list, formats/tex.py')],
     ['items and levels of the loaded lists', 'items, nesting and class of the rendered html, xhtml and LaTeX'],
     technique=T + 'reference-model monitor: lists of known items are loaded and rendered, and read back item by item from the tags and from the three rendered targets',
     note='Held on the generated lists. Text before the first bullet of a list, which is dropped, is not judged.')
prop('C09', 'Tables present every cell of their data in its row and column',
     'The data of a csv or tsv data set, written inline or in a file, is read with every header and every cell in its own row and column, whatever the cells hold (commas and line breaks in quotes, tags, <, &, numbers, duplicate headers, blanks), with blank lines, indentation, short rows and any number of rows, down to a header without rows or one row without a header. A table presents exactly these cells, in order, in html, xhtml and LaTeX, with the kind, caption and label of the table, and never the data of another data set of the document.',
     ['inputs', 'programs'],
     'all data sets, inline and in files, of all tables of a document',
     'The tests present small data sets of plain numbers; quoting, short or blank rows, duplicate headers, single rows and tags in cells are not sampled.',
     ['tags/data.py', 'tags/table.py', 'formats/tex.py', 'formats/xhtml.py'],
     [('reading of data', 'tags/data.py:DelimData'), ('presentation', 'tags/data.py, tags/table.py')],
     ['headers and rows of the loaded data sets', 'cells of the rendered html, xhtml and LaTeX tables'],
     technique=T + 'reference-model monitor: data sets of known cells are loaded and rendered, and read back cell by cell from the tags and from the three rendered targets',
     note='Held on the generated data sets. Empty data sets are not judged.')
prop('C20', 'An epub file is a complete and consistent package',
     'An epub file of a project is a valid zip package whose first entry is the stored mimetype; its container leads to the package document, which is well-formed XML with a title, language and unique ids; its manifest lists every file of the package exactly once, with the right media type, and nothing that is not there; its spine has every page of the project exactly once in the order of the document tree; it has one navigation document, which links to these pages; and every link, image and style sheet of every page leads to a file (and anchor) in the package. The title and layout settings of the documents are shown as they were written. All of this holds for any names, titles and contents, and after any edits.',
     ['inputs', 'programs', 'histories'],
     'all projects with epub targets, with any names, titles, images and settings, also after edits',
     'The tests build the epub file of an example and validate it with epubcheck if that is installed; hostile names and titles, several documents in folders, images and edits are not sampled.',
     ['builders/xhtml2epub.py', 'builders/target_builders/epub_builder.py', 'templates', 'builders/jinja_render.py', 'formats/xhtml.py'],
     [('package', 'builders/xhtml2epub.py'), ('package document', 'templates/default/xhtml/content.opf')],
     ['the written epub file: entries, package document, navigation, pages and their links'],
     technique=T + 'package validator (written for this check from the epub 3 rules) as the oracle over the epub files of generated projects, before and after edits',
     note='Held on the generated projects. The rules are those of EPUB 3; rules on the contents of pages that the tests of the repository pin (lists in paragraphs) are not judged.')
