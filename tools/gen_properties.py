#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
Y="src/parser/parse.y"; B="src/builder.rs"; L="src/lexer/main.rs"
p("P01","Parsing any bytes terminates with a result",
  "For every byte string, whatever its encoding and however malformed, and for every option setting, parsing returns a result: it never panics, aborts, overflows the stack or loops forever. When it returns no tree for input that contains any program text, or cannot continue, at least one error diagnostic says so.",
  ["inputs","configurations"],"every byte string up to the bound, every option setting",
  "The suite parses a fixed set of fixtures that are mostly valid Ruby; a panic or an endless loop needs one particular malformed byte or token sequence.",
  [L,"src/lexer/parse_string.rs","src/lexer/parse_heredoc.rs","src/source/buffer.rs",Y,B],
  [("tokenizer loop","Lexer::parser_yylex in src/lexer/main.rs"),("line buffer cursor","Buffer::nextc/pushback/nextline in src/source/buffer.rs"),("error recovery","error productions and yyerror in src/parser/parse.y")])
p("P02","Every reported location is in bounds, ordered and properly nested",
  "For every input, valid or not, each location in the tree, the diagnostics, the tokens and the comments satisfies begin <= end <= length of the decoded source. Within the tree, a node's full range covers all of its own part locations and the full ranges of all its children, children listed in source order do not overlap, and only the bodies of heredocs may lie outside the range of the node that introduces them.",
  ["inputs"],"every node, token, comment and diagnostic of every input up to the bound",
  "Fixtures compare a few node locations each; a wrong join of two ranges only shows for the particular combination of optional parts that uses it.",
  [B,Y,"src/loc_ext.rs","src/lexer/main.rs"],
  [("range joining","Builder helper functions join_* / Loc::join in src/builder.rs, src/loc_ext.rs")])
p("P03","Every part location covers exactly the text of that part",
  "For every valid program, each keyword, operator, delimiter, name and selector location in the tree covers exactly the bytes of that lexeme, optional part locations are present exactly when the part is written, and a node's full range runs from the first byte of the construct to its last. Names and selectors stored in the tree are the text found at the location recorded for them.",
  ["programs"],"every program generated from the reference grammar, with every combination of optional parts up to the bound",
  "The suite spot-checks locations of single fixtures; the guarantee is about every combination of optional parts, layout and nesting.",
  [B,Y,L],[("location assembly","all constructors in src/builder.rs"),("token locations","Lexer::yylex in src/lexer/main.rs")])
p("P04","The token list is an ordered, faithful account of the source",
  "When token recording is on, the tokens come in source order without overlapping (heredoc bodies aside), each token of fixed spelling or of name, number or operator kind carries exactly the bytes its location covers, and every byte not covered by any token is white space, a comment, a line continuation, an embedded document or data after the end marker. When recording is off the list is empty and everything else is unchanged.",
  ["inputs","configurations"],"every token of every input up to the bound, recording on and off",
  "Lexer tests look at one or two tokens of tiny inputs; lost, duplicated or displaced tokens depend on lookahead, newlines and pushback combinations.",
  [L,"src/source/buffer.rs","src/token.rs","src/parser_options.rs"],
  [("token emission","Lexer::yylex and Parser::next_token in src/lexer/main.rs, src/parser/parse.y"),("pushback","Buffer::pushback in src/source/buffer.rs")])
p("P05","Operators bind with Ruby's precedence and associativity",
  "For every expression built from Ruby's unary, binary, ternary, range, assignment, defined?, not/and/or and modifier operators, the tree groups the operands exactly as Ruby's operator precedence and associativity table says, including unary minus on numeric literals versus exponentiation, and combinations the table forbids (chains of non-associative operators) are rejected.",
  ["programs"],"every sequence of operators up to the bound",
  "The tests exercise operators one at a time; precedence is a relation between every pair (and, for ternary and ranges, triple) of operators.",
  [Y,B,L],[("precedence table","%nonassoc/%left/%right block of src/parser/parse.y"),("unary minus","tUMINUS_NUM in src/lexer/main.rs and parse.y")])
p("P06","Identifiers resolve to local variables exactly by Ruby's scoping rules",
  "A bare identifier is reported as a local variable exactly when an assignment to it, a parameter, a block-local or a pattern capture of that name precedes it in the source within a scope visible there, and as a method call otherwise. Blocks and lambdas see enclosing variables; methods, classes, modules and singleton-class bodies do not; nothing declared inside a closed scope leaks out; names declared by the caller beforehand are visible at top level.",
  ["programs","histories"],"every sequence of declarations, uses and scope entries/exits up to the bound",
  "Scope tests sample two or three programs; resolution is a property of the history of declarations and scope nesting.",
  ["src/static_environment.rs",Y,B,"src/max_numparam_stack.rs","src/variables_stack.rs"],
  [("scope stack","StaticEnvironment in src/static_environment.rs"),("scope entry/exit","extend_static/extend_dynamic/unextend calls in src/parser/parse.y"),("lvar lookup","Builder::accessible in src/builder.rs")])
p("P07","String-like literals decode to exactly the bytes Ruby would produce",
  "For every quoted string, character literal, symbol, %-literal, word list and backtick literal, the tree holds exactly the bytes Ruby's escape, delimiter-nesting, line-continuation and interpolation rules give, split at the interpolations, with adjacent literals concatenated. Literals whose escapes are malformed are reported as errors.",
  ["programs"],"every literal body up to the bound, every delimiter, every escape form",
  "Fixtures contain a few escapes each; the decoding rules are a product of delimiter kind, escape form, nesting and neighbours.",
  ["src/lexer/parse_string.rs","src/lexer/parse_percent.rs","src/lexer/parse_qmark.rs","src/str_term.rs",B,Y],
  [("escape decoder","read_escape/tokadd_escape/tokadd_utf8 in src/lexer/parse_string.rs"),("delimiter nesting","tokadd_string in src/lexer/parse_string.rs")])
p("P08","Heredocs deliver exactly the right body to the right opener",
  "For every heredoc (plain, dash and squiggly; bare, single-, double- and backtick-quoted identifiers; several on one line; nested in interpolation; LF or CRLF line ends), the tree holds exactly the body lines up to its own terminator, with escapes and interpolation processed only when the quoting allows, and squiggly bodies lose exactly the common indentation. The code after the opener on the same line and after the terminator is parsed as if the heredoc were a simple literal, and the body and terminator locations cover exactly those lines.",
  ["programs"],"every arrangement of heredocs and body lines up to the bound",
  "Heredoc tests are a few single-heredoc fixtures; the delicate part is the interaction of several heredocs, line buffers, indentation and line ends.",
  ["src/lexer/parse_heredoc.rs","src/lexer/parse_string.rs",B,"src/source/buffer.rs"],
  [("body reader","here_document/heredoc_identifier/heredoc_restore in src/lexer/parse_heredoc.rs"),("dedent","Builder::heredoc_dedent/dedent_string in src/builder.rs")])
p("P09","Numeric literals are recognised, classified and spelled exactly",
  "Every well-formed Ruby numeric literal (binary, octal, decimal, hexadecimal, with digit separators, fraction, exponent, sign, rational and imaginary suffixes) yields a single node of the right kind whose value is the literal's text and whose location is exactly the literal. Every malformed one (bad digit, doubled or trailing separator, missing digits, stray fraction) is reported as an error, never silently split or accepted.",
  ["inputs"],"every string over the numeric alphabet up to the bound",
  "A dozen numbers are tested; the numeric grammar is a small automaton with many paths.",
  ["src/lexer/parse_numeric.rs",B,Y],[("number automaton","parse_numeric in src/lexer/parse_numeric.rs"),("suffix and sign","set_number_literal, Builder::numeric/negate")])
p("P10","Byte positions convert to the right line, column and source text",
  "For every source and every byte position in it (and the end of input), the reported line and column are those obtained by counting line feeds before it; positions past the end give none. The text extracted for a location is exactly those bytes, and a rendered diagnostic names the right file, line and column, quotes the whole line the problem starts on and underlines exactly the offending columns.",
  ["inputs"],"every source over a small alphabet up to the bound and every position or range in it",
  "The tests call the conversion on one or two hand-picked strings; off-by-one errors sit at line boundaries, empty lines, multibyte characters and end of input.",
  ["src/source/decoded_input.rs","src/source/source_line.rs","src/loc_ext.rs","src/error/diagnostic.rs"],
  [("line table","DecodedInput::update_bytes/line_col_for_pos"),("rendering","Diagnostic::render in src/error/diagnostic.rs"),("expansion to line","LocExt::expand_to_line in src/loc_ext.rs")])
p("P11","Source encoding declarations are honoured exactly",
  "An encoding declared in a leading magic comment (on the first line, or the second after a shebang, any supported spelling, UTF-8 byte-order mark or not) is detected and, unless it is one of the natively supported encodings, the whole source is re-read through the caller's decoder exactly once with that name, all results then referring to the decoded bytes. A missing or failing decoder yields an error diagnostic, and comments elsewhere never trigger decoding.",
  ["inputs","configurations","fault_sequences"],"every placement and spelling of the declaration, every decoder answer",
  "One or two encodings are tested; the guarantee spans placement, spelling, decoder presence and decoder failure.",
  ["src/lexer/parse_magic_comment.rs","src/source/decoder.rs","src/source/input.rs",L],
  [("detection","parser_magic_comment/set_file_encoding in src/lexer/parse_magic_comment.rs"),("re-decoding","Input::set_encoding, decode_input")])
p("P12","All comments and magic comments are reported, exactly once and exactly placed",
  "Every line comment and embedded document of the source, and nothing else, appears exactly once, in source order, in the reported comments with its exact range and kind. Every recognised magic comment (encoding, frozen string, warn-indent, shareable-constant) in either spelling is reported with its kind and the exact ranges of key and value; look-alikes inside strings, heredocs or ordinary comments are not.",
  ["inputs"],"every arrangement of comments, documents, literals and code up to the bound",
  "Comment tests use single comments; the lexer reads comments in many different states (after operators, before leading dots, inside argument lists, at end of input).",
  [L,"src/lexer/parse_magic_comment.rs","src/source/comment.rs","src/source/magic_comment.rs"],
  [("comment collection","the # and =begin arms of parser_yylex"),("magic comments","parser_magic_comment")])
p("P13","Layout never changes meaning: trivia between tokens leaves the tree intact",
  "Inserting insignificant white space, comments, blank lines, embedded documents, escaped newlines, CRLF line ends or newlines after operators, commas, opening brackets and before a leading dot leaves the tree unchanged up to the shift in positions. Replacing a statement separator by another one (newline, semicolon, several of them) does so too.",
  ["programs"],"every program of the corpus with every set of insertions up to the deviation bound",
  "Tests are written in one layout; the guarantee is a relation between all layouts of the same program.",
  [L,"src/source/buffer.rs",Y],[("newline significance","lex-state test in the newline arm of parser_yylex"),("separators","opt_nl/term/terms rules of parse.y")])
p("P14","Parsing is a pure function of the source",
  "Parsing the same bytes twice, in any order relative to other parses, on any thread, with token recording on or off and under any buffer name, gives identical trees, diagnostics, comments and magic comments. The input handed back equals the (decoded) input bytes and carries the buffer name.",
  ["inputs","configurations","histories"],"all pairs of parses and option settings over the corpus",
  "Each test parses once with one configuration.",
  [Y,"src/parser_options.rs","src/parser_result.rs",L],[("parser construction","Parser::new / do_parse in src/parser/parse.y")])
p("P15","Constructs misplaced or misused are rejected with the right error",
  "Every program that uses a construct where Ruby forbids it (assignment to a constant inside a method, to a keyword, numbered parameter or number-reference; return in a class body; class, module or BEGIN inside a method; duplicate parameters, keys or captures; numbered parameters mixed with ordinary or nested ones; block-pass with block; forwarding without declaration; setter with endless body; invalid alias, singleton, label, and the like) gets an error diagnostic of the matching kind located on the offending text. The same construct where it is allowed gets none.",
  ["programs"],"every forbidden construct in every context up to the nesting bound",
  "Tests cover each diagnostic in one context; the rule is a relation between construct and all enclosing contexts.",
  [B,Y,"src/context.rs","src/max_numparam_stack.rs","src/current_arg_stack.rs"],
  [("context flags","Context in src/context.rs, in_def/in_class handling in parse.y"),("builder checks","check_* functions in src/builder.rs")])
p("P16","Bracket and keyword structure is accepted exactly when balanced",
  "A program made of opening and closing brackets, block keywords and simple expressions is accepted without errors exactly when every opener is closed by its own closer in properly nested order; any unclosed, stray or mismatched one yields an error diagnostic.",
  ["programs"],"every token sequence over the bracket/keyword alphabet up to the bound",
  "Tests list a few unbalanced inputs; the claim is about the whole (context-free) language.",
  [Y,L],[("grammar","compound rules of parse.y"),("nesting state","paren_nest, brace_nest, lpar_beg in src/lexer/main.rs")])
p("P17","do and brace blocks attach to the call Ruby attaches them to",
  "In every nesting of calls with and without parentheses, brackets, braces, lambdas, conditions of while/until/for, and command arguments, each brace block attaches to the nearest call and each do-block to the outermost command call of its bracket level or to the loop or lambda it opens. After every successful parse all lexical nesting state is back to its initial value.",
  ["programs"],"every nesting of call forms, brackets, loop conditions and block kinds up to the bound",
  "do-binding depends on the stack of enclosing constructs; tests have a handful of two-level examples.",
  ["src/stack_state.rs",L,Y,"src/lexer/parse_ident.rs"],[("bit stacks","cond/cmdarg StackState pushes and pops in parse.y and lexer"),("do classification","parse_ident keyword do branch")])
p("P18","Pattern matching constructs yield exactly the patterns written",
  "Every case/in, one-line 'in' and '=>' match over value, variable, pinned, alternative, capture, array, find, hash, constant and range patterns, with or without guards, parentheses and brackets, produces the corresponding pattern tree with captured names declared afterwards; duplicate captures and keys and pins of unknown variables are rejected.",
  ["programs"],"every pattern up to the nesting bound",
  "A pattern grammar is recursive with many optional delimiters; tests cover single examples.",
  [Y,B,"src/variables_stack.rs"],[("pattern rules","p_* rules of parse.y"),("pattern builders","Builder::array_pattern/hash_pattern/... in src/builder.rs")])
p("P19","Method, block and lambda parameter lists are represented exactly",
  "For every legal ordering and presence of required, optional, rest, post, destructured, keyword, keyword-rest, no-keyword, block, forwarding and block-local parameters, in methods (ordinary, singleton, endless), blocks and lambdas, the tree lists exactly those parameters in order with their names, defaults and delimiters, and every illegal ordering is rejected.",
  ["programs"],"every sequence of parameter kinds up to the bound, in every definition form",
  "There are hundreds of legal shapes; the tests have a few.",
  [Y,B],[("parameter rules","f_args/args_tail/block_param/lambda_body rules of parse.y"),("builders","Builder::args and friends")])
p("P20","Method calls carry exactly the receiver, name, arguments and block written",
  "Every call form (with or without receiver, dot, safe-navigation or double-colon, operator, index, unary, attribute and command calls, super, yield, not and !) with any sequence of positional, splat, keyword, double-splat, block-pass and forwarded arguments, parenthesised or not, yields a call node with exactly those parts in order. Method names may be any identifier, constant, operator or keyword Ruby allows there.",
  ["programs"],"every call form, argument sequence and method-name class up to the bound",
  "The product of call forms, argument kinds and name kinds is far larger than the fixtures.",
  [Y,B,L],[("call rules","method_call/command/call_args rules of parse.y"),("builders","Builder::call_method/index/...")])
p("P21","Control-flow constructs have exactly the branches and clauses written",
  "Every if/unless/ternary/case/while/until/for/begin/rescue/else/ensure construct and modifier form, with any combination of optional clauses, separators and nested bodies, and every break/next/redo/retry/return, yields a tree with exactly those conditions, branches and clauses, unless and until being represented as specified, and an omitted branch distinguished from an empty one.",
  ["programs"],"every combination of clauses up to the bound",
  "Optional clauses multiply; tests cover each clause once.",
  [Y,B],[("compound rules","primary/stmt/bodystmt/case_body/opt_rescue rules"),("builders","Builder::condition/loop_/begin_body/...")])
p("P22","Assignments record exactly the targets and values written",
  "Every single, multiple (nested, splatted, with attribute, index and constant targets), operator and conditional assignment, chained or with rescue modifier, yields a tree with exactly those targets in order, the operator and the value; regexp named-capture and conditional-literal rewrites happen exactly where Ruby does them.",
  ["programs"],"every combination of target kinds, operators and value kinds up to the bound",
  "Targets, operators and value forms form a product; tests cover single combinations.",
  [Y,B],[("assignment rules","arg/command_asgn/mlhs rules"),("builders","Builder::assign/op_assign/multi_assign/assignable")])
p("P23","Definitions and declarations are represented exactly",
  "Every class, module, singleton class, method, alias, undef, BEGIN/END block and program body, with any legal name, superclass, receiver and body (including rescue/ensure clauses), is represented with exactly those parts; text after the end marker is ignored and statements of a body are grouped exactly as written.",
  ["programs"],"every combination of definition form, name form and body form up to the bound",
  "Tests hold one or two instances per form.",
  [Y,B],[("definition rules","primary rules for class/module/def, fitem/undef_list"),("compstmt grouping","Builder::compstmt")])
p("P24","Words are keywords, names or labels exactly where Ruby says so",
  "Each reserved word is recognised as a keyword in expression position, as a plain method name after a dot, after def, in alias, undef and symbols, and as a label before a colon; no other word, whatever its length or similarity, is treated as reserved. The published reserved-word lookup agrees with Ruby's list.",
  ["inputs"],"every word up to the length bound and every reserved word with its neighbours, in every position",
  "Only a few words are looked up by tests; the table is a perfect-hash whose faults hit single words.",
  ["src/reserved_words/mod.rs","codegen/rust/reserved_words.rs","src/lexer/parse_ident.rs"],[("lookup","reserved_word in src/reserved_words"),("state after keyword","parse_ident in src/lexer/parse_ident.rs")])
p("P25","The public scope table behaves as a stack of name sets",
  "For every sequence of scope openings (inheriting or not), closings, declarations and queries on the public scope table, and for its argument-forwarding markers, a name is reported declared exactly when it was declared in the current scope or in one it inherits from, closing a scope restores the state before it was opened, and emptiness and queries never change it.",
  ["histories"],"every operation sequence up to the bound",
  "Unit tests run a single short sequence.",
  ["src/static_environment.rs"],[("scope stack","StaticEnvironment")])
p("P26","Arrays, hashes, ranges, symbols and word lists list exactly their elements",
  "Every array, hash, range, word-list and symbol-list literal, with any mix of elements, splats, labels (plain, quoted, interpolated), arrow pairs, omitted or implicit hash braces, trailing commas and newlines, yields exactly those elements, keys and values in order, each with its own location.",
  ["programs"],"every element sequence up to the bound in every literal form",
  "Element kinds, separators and nesting multiply.",
  [Y,B,"src/lexer/parse_percent.rs","src/lexer/parse_string.rs"],[("element rules","aref_args/assocs/assoc/word_list rules"),("builders","Builder::array/associate/pair_*/words")])
p("P27","Regular-expression literals keep their source and options exactly",
  "Every regular-expression literal, slash- or percent-delimited, keeps the pattern text Ruby keeps (delimiter escapes removed, other escapes preserved), split at interpolations, with exactly the option letters written, sorted and without duplicates; unknown options and unterminated literals are errors. A slash is read as division exactly where Ruby does.",
  ["programs"],"every body, option sequence and preceding context up to the bound",
  "Tests have a few regexps; the decision between division and regexp depends on every preceding token class.",
  ["src/lexer/parse_string.rs",L,B],[("regexp body","tokadd_string regexp branch"),("options","regx_options, Builder::regexp_options"),("slash decision","'/' arm of parser_yylex")])
p("P28","Warnings are given exactly for the ambiguous spellings that deserve them",
  "Ambiguous prefix operators, ambiguous first arguments, misleading character literals, triple dots at end of line, stray carriage returns and the like produce a warning of the right kind at the right place exactly in the ambiguous layout, and never an error; unambiguous layouts of the same tokens produce no diagnostics.",
  ["programs"],"every operator, preceding token class and spacing up to the bound",
  "Warnings depend on white space on both sides and the lexical state; tests sample a few.",
  [L,"src/lexer/parse_qmark.rs","src/lexer/parse_string.rs","src/lexer/parse_ident.rs"],[("warnings","Lexer::warn/ambiguous_operator/arg_ambiguous")])
p("P29","Variables are read by their full name and kind wherever they stand",
  "Every global (named, punctuation, dashed and zero-led), back reference, numbered reference, instance and class variable is read as exactly the longest name Ruby allows, directly before any operator, bracket or text and inside strings without braces, and becomes the read, assignment, pin, alias or symbol node that position calls for. Malformed names, assignment to back or numbered references, and variables where only a plain name may stand are errors.",
  ["programs"],"every name class and every character after the sigil, in every position, up to the length bound",
  "There are dozens of special names, each with its own place in a hand-written table; tests use a few of them.",
  ["src/lexer/parse_gvar.rs","src/lexer/parse_atmark.rs","src/lexer/parse_string.rs",L,B,"src/maybe_byte.rs"],[("globals","parse_gvar in src/lexer/parse_gvar.rs"),("instance and class variables","parse_atmark in src/lexer/parse_atmark.rs"),("interpolation","peek_variable_name in src/lexer/parse_string.rs"),("assignability","Builder::assignable, nth_ref, back_ref, alias")])
p("P30","Faults in the text are named for what they are, where they are",
  "Every literal that is never closed (string, symbol, command, regexp, word list, heredoc, quoted heredoc name, embedded document), every malformed number, escape, character literal, variable name, percent kind and regexp option, every stray byte and every token that cannot continue the program is reported, before anything else, by an error of the kind that names it, with the offending character, letters, heredoc name or token it is about, located at the fault (at the end of the source when a literal is never closed), whatever valid text comes before it.",
  ["programs"],"every fault of the enumerated kinds in every kind of literal, behind every enumerated prefix",
  "The faults, the literals they occur in and the texts before them multiply; tests hold one example of some of them.",
  [L,"src/lexer/parse_string.rs","src/lexer/parse_heredoc.rs","src/lexer/parse_numeric.rs","src/lexer/parse_percent.rs","src/lexer/parse_qmark.rs","src/lexer/parse_gvar.rs","src/lexer/parse_atmark.rs",Y],[("literals","parse_string, parse_heredoc, heredoc_identifier"),("numbers","parse_numeric, trailing_uc, invalid_octal, no_digits"),("escapes","read_escape, tokadd_utf8, tokadd_codepoint"),("syntax errors","report_syntax_error in src/parser/parse.y")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
