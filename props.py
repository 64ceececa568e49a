"""property id -> what it says and how it is decided"""

T = "openformats/transcribers.py"
NL = "openformats/utils/newlines.py"
ST = "openformats/strings.py"
HN = "openformats/handlers.py"
UJ = "openformats/utils/json.py"
IC = "openformats/utils/icu.py"
FJ = "openformats/formats/json.py"
XM = "openformats/utils/xml.py"
AU = "openformats/formats/android_unescaped.py"
AN = "openformats/formats/android.py"
SD = "openformats/formats/stringsdict.py"
CX = "openformats/formats/customizable_xml.py"

PROPS = {}


def P(pid, title, statement, over, qtext, why, files, mech, **cfg):
    cfg.setdefault("level", "proof")
    PROPS[pid] = dict(
        meta=dict(id=pid, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext},
                  why_tests_cant=why,
                  anchors={"files": files, "mechanism": [
                      {"name": n, "where": w} for n, w in mech]}),
        **cfg)


P("C01", "The transcriber loses, repeats and reorders nothing",
  "Whatever sequence of copy, skip, add and section operations a format runs, "
  "the text that comes out is exactly the pieces of the source that were "
  "copied and the texts that were added, in the order of the operations, and "
  "nothing else. The reported line number is one more than the number of "
  "newlines passed so far, whether they were copied or skipped. Removing a "
  "section removes exactly what lies between that section's start and end "
  "marks.",
  ["inputs", "histories"],
  "every source text and every sequence of operations that stays inside it",
  "tests run a handful of fixed operation sequences; a wrong range, a lost "
  "chunk or a miscounted newline shows only for particular positions",
  [T], [("Transcriber.copy/copy_until/copy_to_end/add/skip/skip_until", T),
        ("Transcriber.line_number / get_destination / remove_section", T)],
  specs=[("s_transcriber", None)], driver="c01.py", driver_s=30,
  bounded=["Transcriber.remove_section", "Transcriber._find_last_section_start"])

P("C02", "Newline style never changes what is extracted or produced",
  "A text is DOS styled exactly when its first newline follows a carriage "
  "return, and forcing a style turns every newline into that style and changes "
  "nothing else. A format that goes through the transcriber treats a file with "
  "LF newlines and the same file with CRLF newlines alike: same strings and "
  "identifiers, and a template and a compiled file that differ only in the "
  "newlines. No CRLF file comes back with a bare LF and no LF file with a CR.",
  ["inputs"],
  "every text without stray carriage returns, and its CRLF rendering",
  "tests use LF fixtures and a few CRLF ones; style handling is spread over "
  "detection, working copy and rendering and must agree for every document",
  [NL, T], [("find_newline_type / force_newline_type", NL),
            ("Transcriber.__init__ / edit_newlines / get_destination", T)],
  specs=[("s_newlines", None)], driver="c02.py", driver_s=40,
  bounded=["parse/compile of each handler on both renderings of a document"])

P("C03", "A string's placeholder is determined by its key, context and plurality",
  "Two strings with the same key, the same context and the same plurality get "
  "the same placeholder, whatever their texts, comments and order are. Under "
  "one context two different keys, and for one key two different contexts, "
  "never share a placeholder, and a plural and a plain string never do. The "
  "attributes a string is created with are the ones it reports.",
  ["inputs"],
  "every key, context and set of attributes (md5 taken as collision free)",
  "tests compare a few placeholders; the identity has to hold for all keys, "
  "contexts and attribute combinations",
  [ST], [("OpenString.__init__ / _get_string_hash / template_replacement", ST)],
  specs=[("s_strings", None)], driver="c03.py", driver_s=30)

P("C04", "Plural rule names and numbers are one bijection",
  "Converting a plural rule name to its number and back gives the name again, "
  "and likewise from number to name, for exactly the six CLDR categories zero, "
  "one, two, few, many and other with numbers 0 to 5. Anything else is refused "
  "with the plural rule error and never silently mapped.",
  ["inputs"], "every text as a name and every integer as a number",
  "tests look at a few names; refusal must hold for everything else",
  [HN], [("Handler.get_rule_number / get_rule_string", HN)],
  specs=[("s_handlers", None)], driver="c04.py", driver_s=20)

P("C05", "JSON escaping and unescaping agree with JSON and invert each other",
  "Unescaping the body of any valid JSON string gives the text JSON says it "
  "denotes, including every \\u escape and surrogate pair. Escaping any text "
  "gives the body of a valid JSON string that denotes that text, so that "
  "unescaping an escaped text gives the text back.",
  ["inputs"], "every text and every valid JSON string body",
  "tests try a dozen strings; interactions between backslashes, \\u escapes "
  "and surrogates need all bodies",
  [UJ], [("escape / unescape", UJ)],
  specs=[("s_json_escape", None)], driver="c05.py", driver_s=40, budget=280)

SUB = "openformats/formats/srt.py"
VT = "openformats/formats/vtt.py"
P("C09", "Subtitle files survive parse and compile block by block",
  "Parsing an SRT or WebVTT file gives one string per cue whose text is the "
  "rest of the cue after its timing line, and a template that is the source "
  "with exactly these texts replaced by their placeholders, in order; only "
  "white space lies outside the cues. Compiling a template writes each "
  "string's text exactly where its placeholder is, removes the whole cue of a "
  "string that was dropped and changes nothing else, so compiling with all "
  "strings gives the source back. SRT order numbers are positive and strictly "
  "ascending, and files that break the cue grammar are refused with a "
  "ParseError.",
  ["inputs"],
  "every text as subtitle file, every subset of its strings",
  "tests compile a few fixture files; block splitting, offsets and section "
  "removal interact with blank lines, white space and missing strings",
  [SUB, VT], [("_generate_split_subtitles / _parse_section / parse / compile",
               SUB), ("the same for WebVTT", VT)],
  specs=[("s_subs", None)], driver="c09.py", driver_s=40, budget=400,
  assumptions=["compile: every block of an SRT template holds two newlines "
               "(true of templates made by parse)",
               "strings given to compile are not plural (both formats have no "
               "plurals)"])

CO = "openformats/utils/compilers.py"
PL = "openformats/formats/plaintext.py"
P("C10", "Plain text: one string per line, everything else untouched",
  "Parsing a plain text file gives, in order, exactly one string for each "
  "line that is not blank, whose text is the line without surrounding white "
  "space; lines end where the style of the first newline says. The template "
  "is the file with each of these texts replaced by its string's placeholder. "
  "Compiling a template whose placeholders stand in the order of the strings "
  "puts each string's text in its placeholder's place and changes nothing "
  "else, so that compiling what was parsed gives the file back.",
  ["inputs"], "every text; every template and ordered set of plain strings",
  "tests parse one fixture; repeated lines, inner copies of a line's text, "
  "blank lines and newline styles need every text",
  [PL, CO], [("PlaintextHandler.parse", PL),
             ("OrderedCompilerMixin.compile", CO)],
  specs=[("s_plain", None)], driver="c10.py", driver_s=25, budget=400,
  assumptions=["compile: the strings are not plural (no format that compiles "
               "in order has plurals)"])

P("C06", "Walking a JSON document finds every item with its exact place",
  "Iterating a JSON container gives each of its items once and in order. The "
  "key and the string value of an item are the exact texts between the quotes, "
  "escapes left as they are, and their positions are where these texts start "
  "in the source. A nested container's position is that of its opening "
  "symbol, a literal comes with the value JSON gives it. Between the items "
  "there is nothing but white space, commas and colons, and the container "
  "ends at its own closing symbol, also when it is asked for its end before "
  "its items. Children are found by their key.",
  ["inputs"], "every valid JSON document and every container in it",
  "tests iterate a few small documents; escapes before quotes, all spellings "
  "of numbers, white space and nesting need every document",
  [UJ], [("DumbJson._find_next / _process_value", UJ),
         ("DumbJson._iter_dict / _iter_list / end / find_children", UJ)],
  specs=[("s_dumbjson", None)], driver="c06.py", driver_s=25, budget=280,
  bounded=["DumbJson.find_children"],
  assumptions=["the source is valid JSON from the container on (all handlers "
               "validate it before they walk it), so that every string and "
               "every container is closed"])

P("C07", "JSON keys: the way to a string is its key and no two are alike",
  "The key of a string in a JSON document spells the way to it: dictionary "
  "keys (as written in the source) joined by dots, with every dot and every "
  "backslash inside a key escaped by a backslash, and list positions written "
  "as ..i.. counting from zero. Two strings of one document never have the "
  "same key. A document in which one dictionary holds the same key twice is "
  "refused with a ParseError. Unescaping an escaped key gives the key back.",
  ["inputs"], "every JSON document and every key text",
  "tests use a few plain keys; dots, backslashes, empty keys and index-like "
  "keys collide only in particular combinations",
  [FJ], [("JsonHandler._extract / _escape_key / _unescape_key", FJ)],
  specs=[("s_json", ["_escape_key", "_unescape_key", "_extract", "lemma"])],
  driver="c07.py", driver_s=25, budget=200,
  assumptions=["JSON strings have no raw tab (ICUParser.parse)"])

P("C08", "JSON formats replace exactly the texts of the strings",
  "Parsing a JSON file (key-value, structured, ARB and Chrome formats) gives "
  "one string for each translatable text, in document order, with the raw "
  "text between the quotes (for a plural: the ICU plural expression) as its "
  "text. The template is the source with each of these texts replaced by its "
  "string's placeholder and nothing else changed. Compiling the template with "
  "the strings puts every string's text, or its serialized plural forms, in "
  "its own placeholder's place and leaves the rest alone, so that compiling "
  "what was parsed gives the source back and other texts change just those "
  "values.",
  ["inputs"], "every JSON document of these formats and every set of "
  "translations with the strings of its template",
  "tests compare a few fixtures; escapes, nesting, blank values, repeated "
  "texts and field order need every document",
  [FJ], [("JsonHandler.parse / _extract / _create_openstring", FJ),
         ("JsonHandler.compile / _insert / _insert_item", FJ),
         ("ArbHandler, StructuredJsonHandler, ChromeI18nHandler, "
          "ChromeI18nHandlerV3", FJ)],
  specs=[("s_json", ["_create", "_extract", "parse", "_get_next", "_insert",
                     "compile"])],
  driver="c08.py", driver_s=40, budget=280,
  bounded=["ArbHandler, StructuredJsonHandler, ChromeI18nHandler(V3): driver",
           "ICUCompiler.serialize_strings is used as a function of the "
           "forms (its text is C15)"],
  assumptions=["compile: the template's placeholders are those of the "
               "strings, in order (what parse makes)"])

P("C15", "ICU plurals: every form is found, numbered and written back",
  "Parsing a value {name, plural, rule {text} ...} gives a plural string with "
  "one form per rule, in order, numbered by the rule (=0, =1, =2 count as "
  "zero, one, two). A form's text is exactly what stands between its braces, "
  "nested braces and quotes included. The reported part of the value starts "
  "with the first rule and ends with the closing brace of the last form, and "
  "stands at the reported position. A value of another shape is no plural. A "
  "plural with an unknown rule, without forms, or with anything but white "
  "space between its forms is refused with a ParseError and no other error. "
  "Where numeric rules are not allowed, a plural that uses them is no plural. "
  "Writing forms gives each as rule {text} in order, separated by a space and "
  "in numeric spelling where asked for, and parsing that gives the forms back.",
  ["inputs"], "every value text, every set of forms",
  "tests try a dozen messages; names that contain rules, nested braces, "
  "quotes and near-miss rule names need every value",
  [IC], [("ICUParser.parse / _parse_pluralized_string", IC),
         ("ICUString.strings_by_rule / syntax_by_rule", IC),
         ("ICUCompiler.serialize_strings", IC)],
  specs=[("s_icu", None), ("s_handlers", ["get_rule"])],
  driver="c15.py", driver_s=30, budget=280,
  bounded=["that between the forms there is only white space, and "
           "ICUCompiler.serialize_placeholder_string: driver"],
  assumptions=["pyparsing's searchString finds the items of its grammar",
               "the value has no raw tab (pyparsing expands tabs) -- no JSON "
               "string has one"])

P("C11", "XML elements: every part is the slice of the source it stands for",
  "For every well-formed XML text, a NewDumbXml element reports its tag, "
  "attributes, text, content, children and tail as exactly the slices of the "
  "source that stand for them, with positions (start, text, end of content, "
  "tail, end) that delimit those slices: the next \"<\" outside CDATA "
  "sections starts the element, children follow one another without gap or "
  "overlap from the end of the text to the closing tag, which carries the "
  "element's own tag, and the end is the next tag or the end of the source. "
  "The answers do not depend on which part is asked first or how often. A "
  "text that is cut off or malformed is refused with DumbXmlSyntaxError and no "
  "other error.",
  ["inputs", "call order"], "every text, every order of asking",
  "tests ask a handful of documents in one order; the lazily cached parts "
  "depend on every character and on the order of the questions",
  [XM], [("NewDumbXml._find_next_lt / position / tag / text_position / text",
          XM), ("NewDumbXml.__iter__ / content_end / content", XM),
         ("NewDumbXml.tail_position / tail / end", XM)],
  specs=[("s_xml", None)],
  driver="c11.py", driver_s=30, budget=280,
  bounded=["NewDumbXml.attributes / attrib, find_children, find_descendants: "
           "driver"])

P("C12", "XML resource files: texts are replaced in place and come back",
  "Parsing an Android, stringsdict or customizable XML file gives one string "
  "for each translatable text that is not blank, in document order, with the "
  "element's raw content as text (plurals: one form per item) and the escaped "
  "name, product and preceding comment as its key, context and comment. "
  "Elements marked translatable=false are left alone; two strings of an "
  "Android file never share a placeholder. The template is the source with "
  "each of these texts replaced by its string's placeholder and nothing else "
  "changed. Compiling puts each string's text in its placeholder's place, so "
  "that compiling what was parsed gives the source back, other texts change "
  "just those elements, and removed strings disappear with their element. "
  "Newline style and everything outside the root element are kept.",
  ["inputs"], "every document of these formats, every set of translations",
  "tests compare a few fixtures; comments, blank items, repeated names, "
  "DOS newlines and skipped elements need every document",
  [AN, SD, CX], [("AndroidHandler.parse / _handle_child / _handle_string / "
                  "_handle_string_array / _create_string", AN),
                 ("AndroidHandler.compile", AN),
                 ("StringsDictHandler", SD), ("CustomizableXMLHandler", CX)],
  specs=[("s_android", None)],
  driver="c12.py", driver_s=35, budget=280,
  bounded=["AndroidHandler._handle_string_plural, the plural and array walks "
           "of compile (_compile_string, _should_compile and "
           "_get_next_string are proved), StringsDictHandler, "
           "CustomizableXMLHandler: driver"])

P("C13", "Escaping XML texts keeps markup and unescaping undoes it",
  "For Android texts, escape puts a backslash before every quote and before a "
  "leading at-sign that does not start a reference, leaves the markup of "
  "inline tags alone and changes nothing else; unescape gives back every text "
  "that does not itself start with a backslash and an at-sign. For the "
  "unescaped Android format, escape turns every special character (quotes, & "
  "> @ ?, newline, tab) of the text into its escape, leaves inline tags and "
  "CDATA sections (their quotes apart) as they are, and unescape gives back "
  "every text without backslashes and tags. For stringsdict, escape leaves no "
  "markup characters and unescape gives the text back.",
  ["inputs"], "every text",
  "tests try a few sentences; the order of the replacements, leading "
  "characters, repeated tags and multi-line CDATA need every text",
  [AN, AU, SD, XM], [("AndroidHandler.escape / unescape", AN),
                     ("AndroidUnescapedHandler.escape / unescape / "
                      "escape_special_characters", AU),
                     ("utils.xml.escape", XM),
                     ("StringsDictHandler.escape / unescape", SD)],
  specs=[("s_android_escape", None)],
  driver="c13.py", driver_s=30, budget=200,
  bounded=["texts with tags or CDATA sections, AndroidUnescapedHandler."
           "unescape, StringsDictHandler: driver"])

# properties whose check is not (yet) claimed: reason for the manifest
NOT_CLAIMED = {}
