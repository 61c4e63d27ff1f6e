import json,subprocess
L=subprocess.run(['git','-C','/repo','log','--format=%h%x09%s'],capture_output=True,text=True).stdout.splitlines()
by={}
for l in L:
    h,s=l.split('\t',1); by[s]=h
F=[
('fix: save output files atomically','C01','outputs were opened with mode w and written in place: an error, interrupt, kill or power cut left empty or truncated PO, MO, Markdown and HTML files (also C05, C06, C02, C03)'),
('fix: do not skip entries marking as obsoletes those not found','C12','entries were removed from the PO file while iterating over it, so some absent messages stayed active'),
('fix: keep in use found entries whose msgstr is not the default one','C12','a translated message present in the sources was marked obsolete when its msgstr differed from the default one'),
('fix: empty and obsolete messages do not hide translations','C13','an untranslated or obsolete entry of a later PO file hid the translation of another'),
('fix: process files and languages in a fixed order','C09','PO files, languages and sources were processed in set or directory order'),
('fix: do not carry commands of a file over to the next one','C11','pending commands, disabled regions and link references of a source applied to the next one'),
('fix: apply commands before a quote placed after a list','C12','commands before a block quote that follows a list were ignored'),
('fix: check PO files from po2md and mdpo2html commands','C07','--no-obsolete, --no-fuzzy and --no-empty-msgstr of po2md and mdpo2html raised an exception instead of checking'),
('fix: pass all options of md2po2md to extractor and translator','C08','wrap width and extensions were not forwarded, and the default Markdown encoding was that of the locale'),
('fix: read msgids to ignore as UTF-8 by default','C09','the file of --ignore-msgids was read with the locale encoding'),
('fix: do not modify the metadata passed by the user','C10','the dictionary passed as metadata was modified'),
('fix: accept contexts without translations in mdpo2html','C05','mdpo2html raised KeyError for a context without translations'),
('fix: load events files completely or not at all','C04','event modules loaded by two threads at once were seen half initialised; a module whose loading failed stayed loaded (also C10)'),
('fix: do not split translated headings in several lines','C13','long translated headings were wrapped, so their tail became a paragraph'),
('fix: keep HTML blocks separated from the next block after a command','C13','the block after an HTML block that follows a command was glued to it'),
('fix: do not lose HTML blocks at the end of the document','C13','an HTML block at the end of the document was lost'),
('fix: do not apply commands of included messages to the next block','C13','context and next-block commands consumed by an included message were applied to the next block by po2md'),
('fix: do not mark as fuzzy reviewed link references that come back','C02','a reviewed translation of a link reference became fuzzy when the reference came back to the sources'),
('fix: keep PO files with new obsoletes unchanged in the next run','C06','an entry with previous-message data that became obsolete was written in a form that the next run dropped, so repeating the run changed the file'),
('fix: report with --check the changes of MO files','C07','the changed status of md2po --check ignored the MO file it writes'),
('fix: translate without the LaTeX math extension','C08','po2md raised an exception when the extensions given did not include the LaTeX math spans'),
('fix: leave list items when they end','C11','the parser kept believing it was inside a list item after the list ended, and carried that to the next blocks and sources'),
('fix: read files whose names contain glob characters','C05','sources matched by a glob whose names contain [ or ] were silently left out (or their path extracted as text by md2po2md) and such PO files ignored, with success reported'),
('fix: read the encoding of PO files only from their headers','C02','the encoding of a PO file was taken from any line that looked like a Content-Type field, so messages about HTTP headers corrupted UTF-8 PO files and lost translations; a header wrapped by --wrapwidth was not recognised, so the next run failed (also C06, C12)'),
('fix: save PO files with the encoding that their new metadata declares','C06','a new PO file whose metadata declares a charset was stored as UTF-8, so the next run read it wrong and changed it'),
("fix: distinguish messages with the context '0' of those without context",'C12',"messages with the context '0' were taken as messages without context: they took their translations and kept them active"),
('fix: accept any character in the arguments of mdpo commands','C12','mdpo commands whose arguments have punctuation marks were ignored, and shown in translated documents (also C13)'),
('fix: load the events file asked for and not other with the same module name','C10','events files were looked up by module name only, so callbacks came from files with the same name in other directories loaded before, or from modules of the standard library (also C14)'),
('fix: find with the checks plurals without translation and entries not separated','C07','the gates did not report untranslated plural entries, nor untranslated or obsolete entries that are not followed by an empty line'),
('fix: translate HTML messages found after thematic breaks','C16','mdpo2html did not find the translations of the messages after a thematic break'),
('fix: translate HTML messages with images','C16','mdpo2html lost images or left their messages untranslated'),
('fix: close once the links at the end of HTML messages','C16','mdpo2html wrote twice the end of links that end a message'),
('fix: translate HTML ordered and nested lists','C16','mdpo2html did not translate ordered lists and mixed the items of nested lists'),
('fix: keep HTML code blocks and the content after them','C16','mdpo2html lost code blocks and what follows them'),
('fix: translate HTML messages with autolinks','C16','mdpo2html did not find the translations of messages with autolinks'),
('fix: do not apply commands of included messages to the next HTML block','C16','context and next-block commands consumed by an included message were applied to the next block by mdpo2html'),
('fix: keep strikethrough text in translated documents','C13','po2md dropped the marks of strikethrough text and did not find the translations of its messages'),
('fix: keep untranslated HTML messages as they are','C16','untranslated and disabled messages of pages were unescaped and parsed as Markdown, so escaped HTML became markup; attributes were written without escaping'),
('fix: translate HTML messages with markup in links, titles and code with backticks','C16','messages of pages with markup in the text of links, quotes in titles or backticks in code were mangled and not translated'),
('fix: do not start other blocks wrapping translated text','C13','wrapping a translated text could put >, #, +, 1. and the like at the start of a line, so its tail became another block'),
('fix: do not unescape twice HTML messages','C16','messages of pages with the text of an entity in code were not found'),
('fix: translate HTML messages extracted between disabled ones','C16','mdpo2html did not translate a message with both commands to disable and enable it, which md2po extracts and po2md translates'),
('fix: respect disabling commands for titles of links and images as plain text','C12','with plain text, md2po extracted titles of links and images of disabled messages'),
('fix: translate links of HTML files whose references have titles, contexts or only a target','C16','mdpo2html did not find the messages of pages with links whose references have titles, contexts or no text'),
('fix: keep ordered and unordered lists nested in each other','C13','po2md mixed the items of ordered and unordered lists nested in each other'),
('fix: keep in their list item or quote all the lines of code blocks','C13','the lines of code blocks inside lists and quotes, but the first, left their container'),
('fix: keep the blocks that follow a nested list in its item','C13','blocks after a nested list were moved out of the list item'),
('fix: keep the number of the first item of ordered lists','C13','ordered lists lost the number in which they start'),
('fix: fences of code blocks longer than the fences inside them','C13','code blocks with fences inside were closed before their end'),
('fix: escape vertical bars in the cells of tables','C13','a vertical bar in a cell became a cell separator'),
('fix: keep quotes inside other quotes','C13','quotes inside quotes were merged with them'),
('fix: do not fail with links and images without target','C13','links and images without target raised exceptions in md2po and po2md (also C12)'),
('fix: do not move the text of list items after the blocks that follow it in HTML files','C16','mdpo2html moved the text of tight list items after the code blocks, quotes and lists that follow it'),
('fix: indent the blocks of list items according to the width of their numbers','C13','the blocks of list items whose number has several digits left them'),
('fix: keep in their containers the blocks of lists and quotes nested in each other','C13','paragraphs, code blocks, tables and lists inside lists and quotes nested in each other left them or were joined to the previous text'),
('fix: do not join the text of list items with their headings and code blocks','C12','the text of a list item was extracted together with the heading or code block that follows it'),
('fix: save changed bytes of outputs with --check','C15','with the check option an output that differed only in its line endings was left as it was, and one that was not text in the encoding made the run fail; the plain save option replaces both'),
('fix: do not wrap wikilinks before their text','C13','a wikilink broken by wrapping after its target got a space at the start of its text'),
 ('fix: call every function of an event passed several times to --event','C14','of several functions given for one event with repeated --event options only the last one was called'),
 ('fix: translate pages with anchors without target and images without source','C16','mdpo2html failed with KeyError in a page with an anchor without href'),
 ('fix: keep doctypes, processing instructions and CDATA of HTML pages','C16','mdpo2html left out the doctype, the processing instructions and the CDATA sections of a page'),
 ('fix: keep the HTML out of the texts of a page as it is','C16','mdpo2html escaped the scripts and styles of a page, left untranslated the text after elements as section or br, and lost the end of the page after its last text'),
 ('fix: keep escaped the titles of HTML pages','C16','mdpo2html wrote unescaped the text of title and textarea elements'),
 ('fix: do not join the texts of ordered lists after a nested one','C12','after an ordered list nested in another one, or in a quote inside it, the text of an item and of the list nested in it were extracted joined in one message'),
 ('fix: do not join texts of list items with the blocks after nested lists','C12','the text of a list item that follows a nested list was extracted together with the heading, code or quote that follows it'),
 ('fix: keep in list items the headings and the texts after other blocks','C13','po2md left out of list items their headings and the texts that follow a code block, a heading or a rule in them, and failed with an empty quote or a quote with a table at the start of a document'),
 ('fix: translate the texts of list items after other blocks in HTML files','C16','mdpo2html left untranslated the text of a list item that follows another block in it'),
 ('fix: keep texts of HTML pages without words as they are','C16','mdpo2html lost texts with only non breaking spaces, and those in its place held a pair of braces'),
 ('fix: keep links to relative paths and URLs with entities','C13','md2po, po2md and mdpo2html wrote the link [a.md](a.md) as <a.md>, which is not a link, and destinations and titles were cut at their first entity (also C12 and C16)'),
 ('fix: keep the text of code spans and of images','C12','code spans that start or end with a backtick or with spaces and the texts of images with spans or several lines were altered in the messages; a code span in the text of an image made md2po and po2md fail (also C13 and C16)'),
]
out=[]
for i,(s,p,w) in enumerate(F):
    assert s in by,s
    out.append({'id':f'F{i+1:02d}','property':p,'status':'fixed','commit':by[s],'what':w,'entry':f'fixed: property={p} {by[s]} {w}'})
miss=[s for s in by if s.startswith('fix:') and s not in [f[0] for f in F]]
assert not miss, miss
json.dump({'findings':out},open('/verif/known_findings.json','w'),indent=1); open('/verif/known_findings.json','a').write('\n')
