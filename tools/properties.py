#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))
LUA = 'src/parser/lua_ast.rs'; GR = 'src/parser/lua_syntax.lalrpop'; LEX = 'src/parser/lua_lexer.rs'
CA = 'src/parser/comment_ast.rs'; CL = 'src/parser/comment_lexer.rs'; CG = 'src/parser/comment_syntax.lalrpop'
FM = 'src/formatter.rs'; DEC = 'src/formatting/decoration.rs'; LIST = 'src/formatting/list.rs'; LH = 'src/formatting/loc_hint.rs'
REC = 'src/formatting/reconstruction.rs'; UT = 'src/formatting/util.rs'; CFG = 'src/config.rs'; MAIN = 'src/main.rs'; FU = 'src/file_util.rs'
SAFE = "in configurations that, where they delete white space or comments, also put separators back (replace_zero_spaces_with_hint, as shipped)"
GEN = "tests compare a few hundred hand-written texts under a few configurations; the claim is over every program and all 49 options together, where tokens, comments, widths and nesting interact"
MON = "runtime monitoring: "
lim = "Sampled, not exhaustive: generated programs are small (a few hundred tokens) with bracket nesting up to 6."

p("C01", "Formatting never changes the program",
  "For every valid Lua text and every configuration that keeps tokens apart, the formatted text is valid Lua with the same sequence of code tokens: none is lost, added, doubled, reordered, joined with a neighbour or commented out. Only what an option names may differ: the spelling of table field separators, a trailing field separator, and the quotes of converted strings.",
  ["programs", "configurations"], "every Lua 5.3 text that the formatter accepts x every configuration " + SAFE, GEN,
  [LUA, GR, LEX, DEC, LIST, LH, UT], [("writing of every node with its white space", LUA), ("hints that replace white space", LH), ("tokens are cut from the source text by position", LEX)],
  ["returned text"], MON + "an independent Lua lexer and parser re-reads every output and compares token streams", lim)
p("C02", "Comments survive",
  "Unless remove_comments is on, every comment of the text is in the output once, in its order, between the same code tokens, of the same kind and with the same text; only the hints that the configuration asks for (around the text of a comment) and trimming where such a hint is set may differ. No comment swallows code and no code becomes a comment.",
  ["programs", "configurations"], "every text with comments anywhere between tokens x every configuration " + SAFE,
  GEN + "; comments can stand in any of hundreds of gaps of the grammar, each written by different code",
  [CA, CL, CG, LH, LUA, UT], [("every gap between tokens is parsed as comments and written again", LH), ("comment texts with hints", CA)],
  ["returned text"], MON + "comments of input and output are compared, anchored between code tokens", lim)
p("C03", "Literals keep their value",
  "Every string and number literal is copied byte for byte, whatever escapes, quotes, line breaks or non-ASCII text it holds. With convert_charstring_to_normalstring single-quoted strings become double-quoted ones that denote the same value, and all other literals stay as they are.",
  ["inputs", "configurations"], "every literal of the language, in every place an expression may stand, under every configuration " + SAFE,
  "tests convert half a dozen strings; escapes, quotes and multi-byte characters combine without bound",
  [LUA, LEX, UT, REC], [("conversion of single-quoted strings", UT), ("literals cut from the text by position", LEX)],
  ["returned text"], MON + "literals of input and output compared one by one, converted ones by the value that an independent reader of escapes gives", lim)
p("C04", "Without layout options nothing moves",
  "A configuration that asks for no change of layout, comments or strings gives back the text unchanged, byte for byte, whatever white space, comments, line endings and characters it holds. The only exceptions are white space inside an empty table that holds a line break, and a line break after a final line comment.",
  ["programs", "configurations"], "every accepted text x every configuration without an effect of its own (empty, options set to false, indentation options alone)",
  "tests check identity on short samples; the writer of every grammar rule must put back every gap of its own",
  [LUA, LH, DEC, LIST, FM], [("gaps are copied from the source by position", LH)], ["returned text"],
  MON + "output compared with the input byte by byte", lim)
p("C05", "line_range leaves everything outside alone",
  "With line_range=a:b, top-level statements that have no part in lines a to b, and the white space and comments between them, come out byte for byte as they were, in place. The statements that have a part in these lines are formatted whole, as they are when the whole text is formatted, and so is what stands between them; a range of all lines is as good as none.",
  ["programs", "configurations", "inputs"], "every accepted text x every configuration x every range of existing lines",
  "tests try some ranges on a few texts; any statement kind, comment or multi-line token can straddle the border",
  [UT, REC, LUA, CA, LH], [("lines to positions", UT), ("the range grows to whole top-level statements", REC), ("out of range nodes are copied", DEC)], ["returned text"],
  MON + "prefix and suffix outside the range compared byte by byte, tokens compared throughout, statements inside compared with a run over the whole text", lim + " With max_width the inside is not compared with the whole-text run.")
p("C06", "Any input gets an answer",
  "For any text, Lua or not, and any configuration, valid or not, formatting ends with a formatted text or an error: it does not panic, overflow, die or hang. Time stays proportionate to the size of ordinary long files.",
  ["inputs", "configurations"], "all UTF-8 texts (cut, mutated, random Unicode, token soup, long, deep) x configurations with arbitrary values",
  "tests feed valid samples and a dozen broken ones; slices by position, integer arithmetic on columns and recursion fail on shapes nobody wrote down",
  [FM, LUA, LEX, CL, CFG, UT, LH], [("lexers return errors", LEX), ("char to byte index", REC)], ["result of the call", "termination", "processor time"],
  MON + "runs with overflow checks and debug assertions in watched worker processes (panics, signals, processor time per case)",
  lim + " Two recorded findings: time exponential in bracket nesting under max_width, stack use proportional to nesting.")
p("C07", "Valid Lua is accepted",
  "Every text that is valid by the Lua 5.3 grammar is formatted, not rejected, whatever its spacing, comments, literals and operators.",
  ["programs"], "every Lua 5.3 text", "tests parse samples; the grammar composes",
  [GR, LEX, CG, CL], [("grammar", GR), ("token rules", LEX)], ["result of the call"],
  MON + "programs generated from the Lua 5.3 grammar, confirmed by an independent parser, are fed to the formatter", lim + " Three recorded findings (forms the grammar or the repository's own tests refuse).")
p("C08", "Broken text is refused",
  "A text that is not Lua because a structural token, keyword or bracket is missing or doubled, a string, comment or bracket is left open, or a character belongs to no token, is reported as a parsing error and never formatted.",
  ["inputs"], "every generated program with one such damage", "tests hold about thirty broken samples; damage can occur at any token",
  [GR, LEX, CL], [("grammar", GR), ("token rules", LEX)], ["result of the call"],
  MON + "damaged programs, confirmed as broken by an independent parser, must be refused", lim + " Damage that the formatter's looser grammar lets through (bare expressions as statements, odd numerals) is not judged.")
p("C09", "The end of the text",
  "With write_newline_at_eof the output ends with a line break (exactly one when remove_all_newlines is on too), whether the text ends with code, a comment, white space or nothing. Without it no line break is added and white space at both ends of the text follows the other options.",
  ["inputs", "configurations"], "every ending of a text x every configuration", "tests try a few endings; comments, return, semicolons and removal options meet at the end of the text",
  [LUA, LH, CA, DEC], [("gap after the last token", LUA)], ["last characters of the returned text"],
  MON + "ends of the output checked; the exact white space at both ends (after the last comment) is predicted by a reference layout", lim)
p("C10", "Blocks are laid out and indented as configured",
  "When the newline_format option of a construct (statement, do_end, for, function, if, repeat_until, while) is 1, its statements, its body and its closing keyword start new lines, indented by exactly one indentation_string per enclosing construct; when it is not set, its parts stay where they were, separated as the white space options say. This holds at every depth and in every mixture of constructs; bodies that are empty stay closed for do and for plain numeric for.",
  ["programs", "configurations"], "every program x every configuration (49 options)", GEN,
  [LUA, DEC, LIST, UT, CFG], [("block writing", LUA), ("indent level kept while writing", UT)], ["white space between statements and around blocks"],
  MON + "a reference layout written for this purpose predicts every gap of the output (where comments stay in a gap, what follows the last one)", lim)
p("C11", "Tables are laid out as configured",
  "Around and between the fields of a table constructor the output has exactly the line breaks, indentation, padding (hint_table_constructor), separators (field_separator) and trailing separator (write_trailing_field_separator) that the table options ask for. Nested tables and tables in calls follow the same rules at their own depth.",
  ["programs", "configurations"], "every program with tables x every configuration", GEN,
  [LUA, LIST, DEC, CFG], [("table constructor and field list", LUA), ("lists with separators", LIST)], ["white space and separators inside table constructors"],
  MON + "a reference layout predicts every gap and separator in tables", lim)
p("C12", "Formatting twice changes nothing",
  "Under a configuration that drops the text's own white space (replace_zero_spaces_with_hint, remove_all_newlines, remove_spaces_between_tokens) and sets no width, the formatted form of a text is a fixed point: formatting it again gives the same bytes. Comments keep to this where the options write them alike whatever line breaks stand between them (no hint_before_comment, the same newline_format for the first comment and the others, none for removed comments) and no trailing separator is taken out.",
  ["programs", "configurations"], "every program x every such configuration", "tests format once; a fixed point is a property of all outputs",
  [LUA, DEC, LIST, LH], [("all gaps are rewritten from options alone", LH)], ["returned texts of two runs"],
  MON + "every output is formatted again and compared", lim)
p("C13", "In-place runs write the formatted text and nothing else",
  "With -i every file that can be formatted ends up holding exactly the text that a run without -i prints for it; files that cannot be read, have no configuration or are not Lua keep their bytes, and so does every other file, with its mode, links and name. Nothing goes to standard output, each failure is reported with the file's name and does not stop the others; without -i no file changes.",
  ["inputs", "histories", "fault_sequences"], "directory trees, argument lists, broken and unreadable files, repeated and linked files, failing writes",
  "no test runs the program; effects on files only show in whole runs over mixed trees",
  [MAIN, FM, FU], [("write after successful formatting", MAIN), ("errors per file", MAIN)], ["file system before and after", "standard output", "error output"],
  MON + "the real program runs in scratch trees; snapshots before and after are compared with a reference model of the run, including write faults by a file size limit",
  "Sampled scenarios of at most a few files. One recorded finding: a write that fails half-way leaves the file cut short.")
p("C14", "Exactly the files asked for are formatted",
  "A directory argument stands for the files directly in it whose name ends in .lua (and has something before that) and does not start with .luafmt, with -r also for those in its subdirectories at any depth; a file argument stands for itself whatever its name. Arguments are taken in sorted order, each file once per mention, unresolved paths are reported and do not stop the rest.",
  ["inputs", "configurations"], "directory trees with odd names, links, hidden and nested directories x argument spellings x -r", "tests list two fixed directories",
  [FU, MAIN], [("directory listing", FU), ("arguments sorted", MAIN)], ["standard output", "files changed", "error output"],
  MON + "the real program runs over random trees; what it printed, changed and reported is compared with an independent listing", "Sampled trees of up to 8 directories and 12 files. Only one order inside a directory is not demanded.")
p("C15", "The nearest configuration file applies",
  "Without format options on the command line each file is formatted with the .luafmt*.lua found first going up from the directory where the file really is; with any valid format option on the command line no configuration file is used, and line_range alone does not count as one. A file without any configuration, or whose configuration file is broken, is reported and left unformatted, and standard input never uses configuration files.",
  ["inputs", "configurations"], "trees with several configuration files at different depths, broken ones, look-alike names, links x command lines", "tests use one directory per case and never the program",
  [FM, FU, CFG, MAIN], [("search upwards", FU), ("empty format test", CFG), ("reading of assignments", CFG)], ["standard output", "files", "error output"],
  MON + "the real program runs over random trees; expected outputs come from an independent search for the configuration", "Sampled trees of up to 6 directories.")
p("C16", "Options mean the same everywhere; bad ones are reported",
  "Each of the 49 format options has its own effect, and the same name and value have the same effect through the library, as --name=value and as an assignment (number, string or boolean) in a configuration file; the last of repeated settings counts and statements other than such assignments are ignored. An unknown option, an unknown name or a value of the wrong type is reported on the error output and has no effect, and the rest still applies.",
  ["configurations", "inputs"], "all options x values valid and invalid x three ways of giving them", "tests set a few options by one way each",
  [CFG, MAIN], [("option table", CFG), ("command line patterns", MAIN), ("assignments of the configuration file", CFG)], ["standard output", "error output"],
  MON + "the real program runs with random option lists by all three ways, plus one recorded effect per option", "Sampled option lists.")
p("C17", "Removal options remove what they name, no more",
  "remove_comments leaves no comment; remove_all_newlines, remove_single_newlines and remove_spaces_between_tokens take out every line break, every lone line break, and every blank between tokens respectively, and nothing else. Blank lines that an option does not name stay, and the inside of strings is never touched.",
  ["inputs", "configurations"], "every text x every combination of the removal options", "tests try the options on short samples",
  [LH, CA, CL, LUA], [("gaps are filtered token by token", CA)], ["white space and comments of the returned text"],
  MON + "output scanned for comments; every gap, with its comments, is predicted by the reference layout", lim)
p("C18", "One text and configuration, one result",
  "The result depends on the text and the configuration only: not on what was formatted before or at the same time in other threads, on other files of the run, on the environment, the working directory, or on whether the text comes from a file, from standard input or through the library.",
  ["histories", "schedules", "inputs"], "sequences and concurrent runs of texts x configurations x environments", "tests format each text once in one process",
  [FM, MAIN, CFG], [("state is created per call", FM)], ["returned texts", "standard output", "files"],
  MON + "the same texts are formatted repeatedly, in reverse order, in threads, by the program in one run, by standard input and in place, and all results compared", "Sampled histories of 2 to 5 texts; thread schedules are the operating system's.")
p("C19", "Spacing inside a line follows the options",
  "Between two tokens that no layout option separates, the output keeps the text's own white space, less what the removal options take out; where nothing is left, replace_zero_spaces_with_hint puts exactly one space or nothing, always the same for the same two neighbours in the same construct. No other character appears.",
  ["programs", "configurations"], "every program x every configuration", GEN, [LUA, DEC, LIST, LH], [("hint of each gap", LUA)], ["white space inside lines"],
  MON + "the reference layout predicts every gap", lim)
p("C20", "Single-line options respect the width",
  "With max_width and a force_single_line option, a table, field, function, if, operator chain, suffix chain or expression list is put on one line exactly when that line then ends before the column limit (counted in characters from the start of the line, indentation included) and is laid out over several lines otherwise; a construct whose source text is longer than twice the width may be laid out without a try. Forcing never changes anything in constructs of other kinds.",
  ["programs", "configurations"], "every program x widths x force_single_line options", "widths, indentation and nesting meet at every column; tests sit at a few",
  [LUA, DEC, LIST, UT, CFG], [("trial writing and measuring", UT), ("indent test", LUA)], ["line breaks of the returned text"],
  MON + "the reference layout measures and predicts every gap", lim)
p("C21", "Comments are laid out as configured",
  "In a gap between two tokens that holds comments, the comments, the line breaks and blanks around them and the white space before the next token are exactly what the options say: newline_format_first_*_comment and newline_format_*_comment put a comment on a new line at the indentation of the construct, hint_before_comment and hint_after_multiline_comment stand before and after the comments of a gap, hint_before_oneline_comment_text, hint_before_multiline_comment_text and hint_after_multiline_comment_text pad the trimmed text, the removal options take out what they name, and without such an option everything stays as it was. A line comment is always followed by a line break.",
  ["programs", "configurations"], "every text with comments in any gap x every configuration",
  GEN + "; comments can stand in any of hundreds of gaps of the grammar, in runs of any mixture of comments and line breaks",
  [CA, CL, CG, LH, DEC, LIST, LUA], [("runs of comments and line breaks", CA), ("hints around a gap", LH), ("new lines before comments", DEC)], ["white space and comments between tokens of the returned text"],
  MON + "the reference layout predicts the whole text of every gap that holds comments", lim)
p("C22", "Original spacing does not matter",
  "Under a configuration that drops the text's own white space (replace_zero_spaces_with_hint, remove_all_newlines, remove_spaces_between_tokens), two comment-free texts with the same tokens are formatted to the same bytes; so are texts with comments that differ in the white space of gaps without comments. With max_width and single-line options this holds as long as every top-level statement of both texts is shorter than twice the width.",
  ["programs", "configurations"], "pairs of texts with equal tokens x every such configuration", "tests never format the same program in two spacings",
  [LUA, LH, DEC], [("all gaps are rewritten from options alone", LH)], ["returned texts of two runs"],
  MON + "every program is rendered again with other white space (beside comments: in the other gaps only); both outputs are compared", lim)
p("C23", "Binary operators break where configured",
  "newline_format_binary_op=1 puts each binary operator at the start of a new line and 2 at the end of the line before its right operand, except where force_single_line_binary_op finds that it fits; chains of the same operator are indented once, an operand of another operator or bracket once more. Without the option operators stay where they are.",
  ["programs", "configurations"], "every program with operators x every configuration", GEN, [LUA, UT], [("operator writing and indent stack", LUA)], ["white space around operators"],
  MON + "the reference layout predicts the gaps around every operator", lim)
p("C24", "Expression lists and suffix chains break where configured",
  "newline_format_exp_list, newline_format_exp_list_first and newline_format_var_suffix put the expressions of a list, its first expression, and each member or method suffix on new lines, except where the matching force_single_line option finds that they fit; the indent options add one level to them exactly as long as something was broken (or always, with the one_line variants). Without these options lists and chains stay where they are.",
  ["programs", "configurations"], "every program with lists and chains x every configuration", GEN, [LUA, LIST, DEC, UT], [("list writing", LIST), ("indent test", LUA)], ["white space around list elements and suffixes"],
  MON + "the reference layout predicts these gaps", lim)
p("C25", "The formatter reads its own output",
  "Whatever the formatter writes it accepts again, under the same configuration and under an empty one.",
  ["programs", "configurations"], "every accepted text x every configuration " + SAFE, "tests never feed outputs back",
  [LUA, GR, LH], [("writing and reading share one grammar", GR)], ["result of the second call"], MON + "every output is fed back", lim)

p("C26", "No blanks at the ends of lines",
  "Under a configuration that drops the text's own white space (replace_zero_spaces_with_hint, remove_all_newlines, remove_spaces_between_tokens) no line of the output ends with blanks, whatever options break or indent lines, except inside strings and comments and where a hint after comments asks for blanks.",
  ["programs", "configurations"], "every program x every such configuration", "a blank is left where a hint or an indentation meets a new line of another construct: pairs of options and constructs that tests do not combine",
  [DEC, LIST, LH, LUA], [("blanks before a new line are taken back", DEC)], ["ends of lines of the returned text"],
  MON + "every line end of the output is checked, strings and comments told apart by the reference lexer", lim)

p("C27", "A refusal names the place",
  "A text that is refused is refused at the place where it stops being Lua, and the message says so: the first token that no Lua text could have there, by the numbers of the characters where it begins and ends; a character that no token has, itself and its number; a string, long string or long comment that is not closed, as the unexpected end of the file.",
  ["inputs"], "every text that is not Lua and is refused", "tests look at a dozen error texts; a message is right or wrong for each place and token of the language, with characters of any width before it",
  [LEX, GR, FM], [("positions of tokens and of lexical errors", LEX), ("error texts", FM)], ["error value of the library", "standard error"],
  MON + "an independent lexer and parser say where the text stops being Lua; the place in the message is compared", "Sampled: programs broken in one place. Not judged: malformed numerals, an opening bracket at the start of a statement and two minus signs in a row (recorded findings of C07). Where the formatter lets through more than Lua, a place between the strict and the lenient one counts.")
p("C28", "-v tells what is used",
  "With -v the program announces every file it takes up, under the path it was found by, and lists for it exactly the options that are in force, each once with its value, whether they come from the command line or from the configuration file that applies; the formatted text follows. Files, messages and results are otherwise those of a run without -v.",
  ["configurations", "inputs"], "every option and value x files, directories and standard input x configuration files", "no test runs the program with -v; 49 names and values are listed by hand",
  [MAIN, FM, CFG], [("announcement and list of options", FM), ("each option's name and value", CFG)], ["standard output", "standard error", "files"],
  MON + "a model of the run predicts the list for every file; standard output is parsed and compared", "Sampled scenarios; the wording of the announcement is free, the path in backquotes and the block of options are not.")
p("C29", "Neighbours do not matter",
  "A top-level statement comes out the same whatever statements and comments stand before and after it: formatting it alone gives the same text. With max_width this holds for statements that begin a line, as what fits depends on the column.",
  ["programs", "configurations"], "every program x every statement of it x every configuration " + SAFE, "tests format whole texts; what one statement leaves behind in the writer's state shows in a later one only",
  [LUA, LH, DEC, REC], [("writer's state", CFG), ("positions in the text", LH)], ["returned texts of several runs"],
  MON + "every statement is cut out and formatted alone; both outputs are compared", lim)
p("C30", "A block's body is laid out like a file, one level deeper",
  "Under a configuration that drops the text's own white space and puts statements on lines of their own, a comment-free text inside of do, while, for, repeat or if comes out as it does alone, each line indented once more; lines inside of literals stay as they are. (Without max_width: what fits depends on the column.)",
  ["programs", "configurations"], "every program x five kinds of blocks x every such configuration", "tests nest a few constructs in a few others; the level that a construct indents to depends on all that are open around it",
  [LUA, DEC, LIST], [("indentation levels", DEC), ("increase and decrease around each construct", LUA)], ["returned texts of two runs"],
  MON + "every text is formatted alone and inside of a block; the second output is compared with the first one, indented", lim)
p("C31", "What things are called does not matter",
  "Names, digits, and the words inside of strings and comments can be exchanged for others of the same number of characters, of any alphabet where Lua allows it, without a change to the layout: all white space, line breaks and separators stay.",
  ["programs", "configurations"], "pairs of texts that differ in names, digits, strings and comments x every configuration " + SAFE, "tests use a handful of names; a name that looks like a keyword, or characters of several bytes, change the layout for some words only",
  [LUA, LEX, UT, LH], [("keywords and names", LEX), ("widths in characters", UT)], ["returned texts of two runs"],
  MON + "every text is formatted again with other words; the outputs are compared with all words blanked out", lim)
p("C32", "An option concerns only what it names",
  "Options that name constructs, comments, strings or white space that the text does not have change nothing in the output, whatever they are set to. A switch that is false is as good as absent (but for write_trailing_field_separator and the two write_newline_at options, which have three states), and the order of different options does not matter.",
  ["programs", "configurations"], "pairs of configurations that differ in options idle for the text x programs", "tests set each option on texts it is made for; an option that is read in the wrong place shows elsewhere",
  [LUA, CFG, CA, DEC, LIST, LH], [("options read by each construct", LUA)], ["returned texts of two runs"],
  MON + "the text's constructs are taken from an independent parser; every text is formatted again with its idle options changed at random, switches toggled between false and absent, and the order shuffled; both outputs must be equal", lim)
p("C33", "The effort is in proportion to the text",
  "When a text is continued with more of the same - statements, fields, arguments, names, operands, suffixes, branches, comments, lines, characters of a literal - the work and the memory grow in proportion: twice as much more text takes about twice as much more work and memory. Without the single-line and indentation options the same holds for nesting.",
  ["inputs", "configurations"], "repeatable pieces of text x every configuration; growth over three sizes", "tests have short texts, and clocks on loaded machines tell nothing; work that grows with the square shows in long files only",
  [GR, LUA, LIST, LH, UT, CL], [("lists are collected by the grammar", GR), ("trial writing", UT)], ["instructions executed by the program", "bytes asked from the allocator by the library, and bytes held at a time"],
  MON + "a counting allocator meters what the library asks for and holds for n, 2n and 4n pieces; the program runs under valgrind, which counts instructions, for smaller n; growth is compared with a limit of 2.6 between 2 (linear) and 4 (quadratic)", "Sampled pieces: up to 64000 characters for memory, 4000 for instructions; a small quadratic share of the instructions (below about a seventh of the work at the smallest size) is not seen.")
p("C34", "Removed comments leave no trace",
  "With remove_comments, under a configuration that drops the text's own white space, a text is formatted as if it had been written without its comments, whatever the options about comments say. (A construct as long as twice max_width in the source may be laid out without a try, so there the length of comments counts.)",
  ["programs", "configurations"], "every text with comments in any gap x every such configuration", "tests remove a few comments under one configuration; hints, new lines and indentation of comments are written in other places than the comments themselves",
  [CA, LH, LIST, DEC], [("removal of comments", CA), ("hints and new lines around a gap", LH)], ["returned texts of two runs"],
  MON + "every text is formatted again with blanks in place of its comments, cut out by the reference lexer; both outputs must be equal", lim)
p("C35", "The looks of the indentation do not matter",
  "Another indentation_string of as many characters changes nothing but the indentation: under a configuration that drops the text's own white space, each line of the output begins with as many of the one as it did of the other, and is otherwise the same. Lines inside of literals and comments stay as they are.",
  ["programs", "configurations"], "pairs of indentation strings of blanks x every program x every such configuration", "tests have one or two indentation strings; widths, blanks taken back before a new line and trials see the characters of the indentation",
  [UT, DEC, LIST, LUA], [("writing of the indentation", UT), ("blanks before a new line are taken back", DEC)], ["returned texts of two runs"],
  MON + "every text is formatted with both strings; the second output is compared with the first one, exchanged at the start of each line", "Sampled; strings of blanks and tabs of one to four characters; hint_before_comment, whose blanks could be taken for indentation, is left out, and so are the blanks at the start of a line after a line comment, where other hints can stand.")
exec(open(os.path.join(root, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(root, 'tools', 'more.py')) else None
P.sort(key=lambda d: d['id'])
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(dict(id=d['id'], title=d['title'], statement=d['statement'], quantifier=dict(over=d['over'], text=d['text']), why_tests_cant=d['why'],
            anchors=dict(files=d['files'], mechanism=[dict(name=n, where=w) for n, w in d['mech']], observe_at=d['observe'], hook_needed=None)), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='bash run.sh build', checks=[dict(property=d['id'], quick_cmd='bash run.sh check %s quick' % d['id'], thorough_cmd='bash run.sh check %s thorough' % d['id'],
    technique=d['technique'], level='exploration', level_note=d['note']) for d in P], not_applicable=[])
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
