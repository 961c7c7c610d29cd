ALL=[]
def P(id,property,edits,inputs,needs,breaks,**k):
    ALL.append(dict(id=id,property=property,edits=edits,inputs=inputs,needs=needs,breaks=breaks,**k))
B='src/builder.rs'; L='src/lexer/main.rs'; Y='src/parser/parse.y'
P('p06-quoted-label-capture','P06',[(B,'''                self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;

                self.static_env.declare(name.as_str());
''','''                self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
''')],['case x\nin {"a":}\n  a\nend\n'],
 'a hash pattern whose capture is spelled as a quoted label with no value','the captured name is not declared, so later uses of it are reported as method calls')
P('p08-terminator-cr','P08',[('src/source/buffer.rs','''                if n <= 1 || char_after_last_char != b'\\n' {''','''                if n <= 1 {''')],['x = <<A\nA\rb\nA\ny\n'],
 'a body line that starts with the identifier followed by a lone carriage return','such a line ends the heredoc early')
P('p22-flipflop-right','P22',[(B,'''            }) => Box::new(Node::EFlipFlop(EFlipFlop {
                left: left.map(Self::check_condition),
                right: right.map(Self::check_condition),''','''            }) => Box::new(Node::EFlipFlop(EFlipFlop {
                left: left.map(Self::check_condition),
                right,''')],['if a...(/b/)\n  c\nend\n'],
 'an exclusive range used as a condition whose right end is a regexp literal','the regexp at the right end of an exclusive flip-flop is not turned into a match against the current line')
P('p27-option-dup','P27',[(B,'''        options.sort_unstable();
        options.dedup();
''','''        options.dedup();
        options.sort_unstable();
''')],['/a/mim\n','/a/xx\n'],'a regexp with the same option letter twice, not adjacent','repeated option letters are kept')
P('p25-forward-leak','P25',[('src/static_environment.rs','''        *self.variables.borrow_mut() = self
            .stack
            .borrow_mut()
            .pop()
            .expect("expected static_env to have at least one frame");
''','''        let forwarding = self.is_forward_args_declared();
        *self.variables.borrow_mut() = self
            .stack
            .borrow_mut()
            .pop()
            .expect("expected static_env to have at least one frame");
        if forwarding {
            self.declare_forward_args();
        }
''')],['def a(...); end\nb(...)\n','def a(...)\n  b(...)\nend\n'],'a query of the forwarding marker after the scope that declared it was closed','the argument-forwarding marker survives the closing of its scope')
P('p13-formfeed-dot','P13',[(L,'''                            if c == b' '
                                || c == b'\\t'
                                || c == Self::LF_CHAR
                                || c == b'\\r\'''','''                            if c == b' '
                                || c == b'\\t'
                                || c == b'\\r\'''')],['a\n\x0c.b\n'],'a form feed in the indentation of a line that starts with a dot','the call chain is cut at the line break')
P('p09-hex-uc','P09',[('src/lexer/parse_numeric.rs','''                if c == b'0' || c == b'1' {
                    loop {
                        if c == b'_' {
                            if nondigit.is_some() {
                                break;
                            }
''','''                if c == b'0' || c == b'1' {
                    loop {
                        if c == b'_' {
''')],['0b1__0\n','0b1_0\n'],'a binary literal with two adjacent digit separators','doubled separators are accepted in binary literals')
P('p07-meta-control','P07',[('src/lexer/parse_string.rs','''                } else if c == b'?' {
                    return MaybeByte::new(0x7f_u8);''','''                } else if c == b'?' && (flags & ESCAPE_META) == 0 {
                    return MaybeByte::new(0x7f_u8);''')],['"\\M-\\C-?"\n','"\\C-?"\n'],'the escape \\M-\\C-? (control-question-mark inside meta)','it decodes to 0x9f instead of 0xff')
P('p20-csend-index','P20',[(B,'''        let method_name = maybe_value(selector_t);
        let method_name = method_name.unwrap_or_else(|| String::from("call"));

        self.rewrite_hash_args_to_kwargs(&mut args);
''','''        let method_name = maybe_value(selector_t);
        let method_name = method_name.unwrap_or_else(|| String::from("call"));

        if begin_l.is_some() || args.len() > 1 {
            self.rewrite_hash_args_to_kwargs(&mut args);
        }
''')],['foo a: 1\n','foo(a: 1)\n'],'a command call whose only argument is a keyword list','the keyword arguments of such a call are reported as a hash')
P('p21-until-post','P21',[(B,'''            (LoopType::Until, Node::KwBegin(_)) => Box::new''','''            (LoopType::Until, Node::KwBegin(KwBegin { statements, .. })) if !statements.is_empty() => Box::new''')],['begin; end until a\n','begin; b; end until a\n'],'an empty begin/end block with an until modifier','the do-while form is reported as a plain until loop when its body is empty')
P('p26-symbol-dsym','P26',[(B,'''        if parts.len() == 1 && matches!(&parts[0], Node::Str(_) | Node::Dstr(_)) {
            let part = parts''','''        if parts.len() == 1 {
            let part = parts''')],['%W[#{a}]\n','%W[a #{b}c]\n'],'a word of %W or %I that consists of nothing but one interpolation','the word is reported as the interpolated statements, not as a string')
P('p23-undef-loc','P03',[(B,'''            let end_l = maybe_node_expr(&ensure_body.as_ref().map(|x| x.as_ref()))
                .unwrap_or_else(|| self.loc(&ensure_t));
''','''            let end_l = maybe_node_expr(&ensure_body.as_ref().map(|x| x.as_ref()))
                .or_else(|| maybe_boxed_node_expr(&result))
                .unwrap_or_else(|| self.loc(&ensure_t));
''')],['begin\n  a\nensure\nend\n','begin\n  a\nensure\n b\nend\n'],'an ensure clause with an empty body after a non-empty one','the range of the ensure construct stops before its keyword')
P('p04-csend-tok','P04',[(L,'''self.set_yylval_id("&&=");''','''self.set_yylval_id("&=");''')],['a &&= b\n','a &= b\n'],'&&= assignment','token text differs from the source and the operator is wrong',tokens=1)
P('p01-cut-char','P01',[(L,'''        let bytes = self.buffer.substr_at(ptr, ptr + len)?;
        std::str::from_utf8(bytes).ok()?;''','''        let bytes = &self.buffer.input.as_shared_bytes()[ptr..ptr + len];
        std::str::from_utf8(bytes).ok()?;''')],[b'a = b\xe3\x81\n'.decode('latin1').encode('latin1')[:-1],'a = é\n'],'a source that ends in the middle of a multi-byte character of an identifier','the parser panics')
P('p02-gvar-eof','P02',[('src/lexer/parse_gvar.rs','''DiagnosticMessage::InvalidGvarName { c: b'-' }, self.current_loc());''','''DiagnosticMessage::InvalidGvarName { c: b'-' }, self.loc(self.buffer.ptok, self.buffer.ptok + 3));''')],['a = $-','a = $-a\n'],'a source that ends right after the dash of a dashed global','the error location lies outside the source')
P('p10-past-end','P10',[('src/source/decoded_input.rs','''            if line.len() > pos {
                return''','''            if line.len() > pos || line.ends_with_eof {
                return''')],[],'a position past the end of the source','it is given a line and column',main='''use lib_ruby_parser::{Parser, ParserOptions};
fn main() {
    let r = Parser::new("a\\nbc".as_bytes().to_vec(), ParserOptions { buffer_name: "in.rb".into(), ..Default::default() }).do_parse();
    let ok = r.input.line_col_for_pos(3) == Some((1, 1)) && r.input.line_col_for_pos(4) == Some((1, 2)) && r.input.line_col_for_pos(5).is_none() && r.input.line_col_for_pos(100).is_none();
    std::process::exit(if ok { 0 } else { 1 });
}
''')
P('p11-case','P11',[('src/source/decoder.rs','''    match enc.to_uppercase().as_str() {
        "UTF-8" | "ASCII-8BIT" | "BINARY" => DecoderResult::Ok(input),''','''    match enc.as_str() {
        "UTF-8" | "utf-8" | "ASCII-8BIT" | "ascii-8bit" | "BINARY" | "binary" => DecoderResult::Ok(input),''')],['# encoding: Utf-8\na = 1\n','# encoding: utf-8\na = 1\n'],'a native encoding declared in mixed case','the source is reported to have an unsupported encoding')
P('p14-cr-once','P14',[(L,'''                    if !self.buffer.cr_seen {
                        self.buffer.cr_seen = true;
                        self.warn(''','''                    if !self.buffer.cr_seen {
                        self.buffer.cr_seen = true;
                        use std::sync::atomic::{AtomicUsize, Ordering};
                        static WARNED: AtomicUsize = AtomicUsize::new(0);
                        if WARNED.fetch_add(1, Ordering::Relaxed) >= 100 {
                            space_seen = true;
                            continue 'retrying;
                        }
                        self.warn(''')],[],'a process that has parsed more than a hundred stray carriage returns','later parses of the same bytes lose their warning',main='''use lib_ruby_parser::{Parser, ParserOptions};
fn main() {
    let run = || {
        let r = Parser::new("a\\r b\\n".as_bytes().to_vec(), ParserOptions { buffer_name: "in.rb".into(), ..Default::default() }).do_parse();
        format!("{:?} {:?}", r.ast, r.diagnostics)
    };
    let first = run();
    std::process::exit(if (0..300).all(|_| run() == first) { 0 } else { 1 });
}
''')
P('p15-nested-dup','P15',[(B,'''                Node::Mlhs(Mlhs { items, .. }) => {
                    self.check_duplicate_args(items, map);
                }
                Node::Procarg0''','''                Node::Mlhs(Mlhs { items, .. }) => {
                    self.check_duplicate_args(items, &mut map.clone());
                }
                Node::Procarg0''')],['foo { |(a, b), a| }\n','foo { |a, (b, c)| }\n'],'a parameter after a destructured one that repeats one of its names','the duplicate is not reported')
P('p17-u32','P17',[('src/stack_state.rs','''    stack: usize,
}''','''    stack: u32,
}''')],['while '+'('*33+'a'+')'*33+' do b end\n','while (a) do b end\n'],'more than thirty-two brackets between while and its do','the do is not recognised as the one of the loop')
P('p18-pin-case','P18',[('src/variables_stack.rs','''        self.stack
            .borrow()
            .last()
            .expect("expected variables_stack to have at least 1 layer")
            .contains(name)''','''        self.stack
            .borrow()
            .iter()
            .any(|layer| layer.contains(name))''')],['case x\nin {a:, b: {a: 1}}\nend\n','case x\nin {a:, b: 1}\nend\n'],'a hash pattern nested in another one that uses the same key, or a pattern inside a pinned expression','the pattern is rejected as a duplicate')
P('p24-eqq-name','P24',[('src/lexer/parse_ident.rs','''                && (!self.buffer.peek(b'=') || (self.buffer.peek_n(b'>', 1))))''','''                && !self.buffer.peek(b'='))''')],['{:a==>1}\n','[{:a==>1}]\n','[{:a=>1}]\n'],'a setter symbol directly followed by the arrow of a hash pair','it is read as a comparison')
P('p28-eol-comment','P28',[('src/source/buffer.rs','''                let eol = c == b'\\n' || c == b'#';''','''                let eol = c == b'\\n';''')],['a... # c\n','a...\nb\n'],'an endless triple-dot range followed by a comment','the warning is not given')
P('p29-nth-zero','P29',[('src/lexer/parse_string.rs','''                } else if c.is_global_name_punct() || c.is_digit() {''','''                } else if c.is_global_name_punct() || (c.is_digit() && c != b'9') {''')],['"#$9"\n','"#$1"\n'],'the ninth numbered reference interpolated without braces','it is read as text')
# ---- third batch
P('p03-else-empty','P03',[(B,'''                let end_l = maybe_boxed_node_expr(&else_).unwrap_or_else(|| self.loc(&else_t));
''','''                let end_l = maybe_boxed_node_expr(&else_)
                    .or_else(|| maybe_node_expr(&rescue_bodies.last()))
                    .unwrap_or_else(|| self.loc(&else_t));
''')],['begin\n  a\nrescue\n  b\nelse\nend\n','begin\n  a\nrescue\n  b\nelse\n  c\nend\n'],'a rescue with an else clause that has no body','the range of the rescue ends before its else keyword')
P('p03-guard-range','P03',[(B,'''            .or_else(|| maybe_boxed_node_expr(&guard))
            .unwrap_or_else(|| *pattern.expression())
''','''            .unwrap_or_else(|| *pattern.expression())
''')],['case a\nin b if c\nend\n','case a\nin b if c\n  d\nend\n'],'an in clause with a guard and an empty body','the range of the clause ends before its guard')
P('p12-quoted-escape','P12',[('src/lexer/parse_magic_comment.rs','''                    if c == b'\\\\' {
                        len -= 1;
                        str_ += 1;
                    }
''','')],['# -*- frozen_string_literal: "a\\"b"; warn_indent: true -*-\na\n','# -*- frozen_string_literal: "true"; warn_indent: true -*-\na\n'],'an emacs-style magic comment with a quoted value that contains an escaped quote','the value is cut short and the settings after it are lost or misplaced')
P('p19-mlhs-one','P19',[(B,'''            Node::Mlhs(Mlhs {
                items,
                begin_l,
                end_l,
                expression_l,
            }) => Box::new(Node::Procarg0(Procarg0 {
                args: items,
                begin_l,
                end_l,''','''            Node::Mlhs(Mlhs {
                items,
                begin_l,
                end_l,
                expression_l,
            }) => Box::new(Node::Procarg0(Procarg0 {
                begin_l: begin_l.filter(|_| items.len() > 1),
                end_l: end_l.filter(|_| items.len() > 1),
                args: items,''')],['a { |(b)| }\n','a { |(b, c)| }\n','a { |(*)| }\n'],'a block whose only parameter is a destructuring group of one name','its parentheses are not reported')
P('p20-kwargs-many','P20',[(B,'''        } else if len > 1
            && matches!(args[len - 1], Node::BlockPass(_))''','''        } else if len == 2
            && matches!(args[len - 1], Node::BlockPass(_))''')],['a(b, c: 1, &d)\n','a(c: 1, &d)\n'],'a call with a positional argument, keywords and a block argument','the keywords are reported as a positional hash')
P('p28-float-key','P28',[(B,'''                        // complex
                        (
                            Node::Complex(Complex { value: value1, .. }),
                            Node::Complex(Complex { value: value2, .. }),
                        ) if value1 == value2 => true,
''','')],['{1i => 2, 1i => 3}\n','{1 => 2, 1 => 3}\n'],'two equal imaginary literals as hash keys','no warning is given')
P('p08-dedent-tab','P08',[(B,'''                if n > width {
                    break;
                }
                col = n;''','''                if n > width && col == 0 {
                    break;
                }
                col = n;''')],['a = <<~B\n    c\n  \td\nB\n','a = <<~B\n    c\n\td\nB\n'],'a squiggly heredoc with a line indented by blanks and then a tab that reaches beyond the common indentation','the tab is removed although it is wider than the indentation to remove')
P('p17-dend-first','P17',[(L,'''                    self.brace_nest -= 1;
                    self.cond.pop();
                    self.cmdarg.pop();
                    self.lex_state.set(EXPR_END);
                    self.paren_nest -= 1;

                    return Self::tRCURLY;''','''                    self.brace_nest -= 1;
                    self.cond.pop();
                    if self.brace_nest != 1 {
                        self.cmdarg.pop();
                    }
                    self.lex_state.set(EXPR_END);
                    self.paren_nest -= 1;

                    return Self::tRCURLY;''')],['a "#{b {{}} do end}"\n','a {b {}} do end\n','a [b {{}}] do end\n'],'braces nested in braces','do-blocks after them attach to another call')
P('p21-kwbegin-until','P21',[(B,'''            (LoopType::While, Node::KwBegin(_)) =>''','''            (LoopType::While, Node::KwBegin(KwBegin { statements, .. })) if statements.len() != 2 =>''')],['begin; a; b; end while c\n','begin; a; end while c\n'],'a do-while loop with exactly two statements','it is reported as a plain while loop')
# ---- fourth batch
N='src/lexer/parse_numeric.rs'; ST='src/lexer/parse_string.rs'; H='src/lexer/parse_heredoc.rs'; BUF='src/source/buffer.rs'; I='src/lexer/parse_ident.rs'; ENV='src/static_environment.rs'
P('p05-minus-zero','P05',[(L,'''                        if !c.is_eof() && c.is_digit() {
                            return Self::tUMINUS_NUM;''','''                        if !c.is_eof() && c.is_digit() && c != b'0' {
                            return Self::tUMINUS_NUM;''')],['a = -0x2\n','a = -0.5 ** 2\n','a = -1 ** 2\n'],'a negative literal that starts with a zero','the minus is an operator applied to the literal instead of part of it')
P('p06-hash-names','P06',[(ENV,'''        self.variables.borrow().get(name).is_some()
''','''        let variables = self.variables.borrow();
        match variables.range(name.to_string()..).next() {
            Some(found) => found.len() == name.len() && found.starts_with(name.trim_end_matches('_')),
            None => false,
        }
''')],['ab = 1\na_\n','aa = 1\nab = 2\naa\nab\nac\n'],'a name ending in an underscore where a name with the same beginning and length is declared','the undeclared name is taken for a local variable')
P('p07-octal-wrap','P07',[(ST,'''            match self.buffer.byte_at(s).as_option() {
                Some(c) if (b'0'..=b'7').contains(&c) => {
                    result <<= 3;
                    result |= (c - b'0') as usize;''','''            match self.buffer.byte_at(s).as_option() {
                Some(c) if (b'0'..=b'7').contains(&c) => {
                    if result >= 0o40 {
                        break;
                    }
                    result <<= 3;
                    result |= (c - b'0') as usize;''')],['"\\400 \\477"\n','"\\377"\n'],'an octal escape above 255','the last digit is left in the text as a character')
P('p09-exp-uc','P09',[(N,'''                    if let Some(nondigit_value) = &nondigit {
                        self.buffer.pushback(c);
                        c = *nondigit_value;
                        return self.decode_num(c, nondigit, is_float, seen_e);
                    }
                    if seen_e {''','''                    if let (Some(nondigit_value), false) = (&nondigit, is_float) {
                        self.buffer.pushback(c);
                        c = *nondigit_value;
                        return self.decode_num(c, nondigit, is_float, seen_e);
                    }
                    if seen_e {''')],['1.5_e3\n','1_e3\n'],'a fraction with a separator right before the exponent','the malformed literal is accepted')
P('p13-crlf-label','P13',[(L,'''                Some(b' ') | Some(b'\\t') | Some(Self::LF_CHAR) | Some(Self::VTAB_CHAR) => {
                    space_seen = true;''','''                Some(b' ') | Some(b'\\t') | Some(Self::LF_CHAR) | Some(Self::VTAB_CHAR) => {
                    space_seen = c != Self::VTAB_CHAR;''')],['a \x0b-1\n','a\x0b[1]\n','a -1\n'],'a vertical tab as the only or last white space before an operator','the layout is read as if there were no space')
P('p14-cache','P14',[(I,'''fn is_var_name(ident: &str) -> bool {
    if let Some(first_char) = ident.chars().next() {
        return !first_char.is_uppercase();
    }
    false
}''','''thread_local! {
    static LAST: std::cell::Cell<(usize, char, bool)> = std::cell::Cell::new((0, ' ', false));
}

fn is_var_name(ident: &str) -> bool {
    if let Some(first_char) = ident.chars().next() {
        let lower = first_char.to_lowercase().next().unwrap_or(first_char);
        let (len, last, known) = LAST.with(|l| l.get());
        if len == ident.len() && last == lower && !first_char.is_ascii() {
            return known;
        }
        let answer = !first_char.is_uppercase();
        LAST.with(|l| l.set((ident.len(), lower, answer)));
        return answer;
    }
    false
}''')],['\u00e9 = 1\n','\u00c9 = 1\n'],'two names that differ in the case of a non-ASCII first letter, one parsed right after the other','the second is given the kind of the first')
P('p15-numparam-outer','P15',[('src/max_numparam_stack.rs','''            .any(|scope| scope.value > 0)''','''            .any(|scope| scope.value > 1)''')],['a { _1; b { _1 } }\n','a { _2; b { _1 } }\n'],'nested blocks that both use _1','the nested numbered parameter is accepted')
# ---- fifth batch
S='src/static_environment.rs'
P('p27-labeled','P27',[(L,'''                Some(b'/') => {
                    if self.lex_state.is_beg() {''','''                Some(b'/') => {
                    if self.lex_state.is_some(EXPR_BEG_ANY) {''')],['{a:/b/}\n','a b:/c/\n','a b: 1\n'],'a slash directly after a label','it is read as division')
P('p28-amp-dsym','P28',[(L,'''                            || !(c == b'\\''
                                || c == b'"'
''','''                            || !(c == b'\\''
''')],['a &:"b"\n','a &:b\n','a &b\n'],'a block argument written as a double-quoted symbol after a space','a warning is given for an unambiguous spelling')
P('p12-begin-tab','P12',[(BUF,'''        let c = self.byte_at(self.pcur + len);
        if c.is_space() {''','''        let c = self.byte_at(self.pcur + len);
        if c == b' ' || c == b'\\n' || c == b'\\r' {''')],['=begin\tx\ny\n=end\nz\n','=begin x\ny\n=end\nz\n','=begin\n=end\tx\n=end\na\n'],'an embedded document whose first or last marker is followed by a tab','the document is not recognised or ends elsewhere')
P('p20-colon3-arg','P20',[(L,'''                            || self
                                .lex_state
                                .is_spacearg(MaybeByte::EndOfInput, space_seen)
''','''                            || (self.lex_state.is_some(EXPR_CMDARG) && space_seen)
''')],['x = a ::B\n','a ::B\n','a b ::C\n'],'a call with a top-level constant as its argument that is not the first thing in its statement','the constant is looked up in the result of the call')
P('p24-sym-eq-assoc','P24',[(I,'''                && (!self.buffer.peek(b'=') || (self.buffer.peek_n(b'>', 1))))''','''                && !self.buffer.peek(b'='))''')],['{:a==>1}\n','def a==(b); end\n','{:a=>1}\n'],'a setter symbol directly before an arrow','the name is cut before its equals sign')
P('p29-dash-mb','P29',[('src/lexer/parse_gvar.rs','''                    if self.tokadd_mbchar(c).is_err() { return Self::END_OF_INPUT }
                } else {''','''                    self.tokadd(c);
                } else {''')],['$-\u00e9\n','$-w\n'],'a dashed global whose letter is not ASCII','the name is cut in the middle of the character')
P('p29-at-digit','P29',[(ST,'''        if !c.is_ascii() || c == b'_' || c.is_alpha() {
            return Some(Self::tSTRING_DVAR);''','''        if !c.is_ascii() || c == b'_' || c.is_alnum() {
            return Some(Self::tSTRING_DVAR);''')],['"#@1"\n','"#@@2"\n','"#@a"\n','"#$1"\n'],'an at sign followed by a digit after a hash in a string','plain text is taken for a malformed variable and rejected')
P('p07-nest-escape','P07',[(ST,'''                        } else if c != term && c != paren {
                            self.tokadd(b'\\\\');''','''                        } else if c != term && (c != paren || (func & STR_FUNC_QWORDS) != 0) {
                            self.tokadd(b'\\\\');''')],['%w(a\\(b)\n','%q(a\\(b)\n','%w(a\\)b)\n'],'an escaped opening delimiter in a word list','the backslash is kept and the delimiter counts as nesting')
P('p23-def-lvar','P23',[(I,'''        if !last_state.is_some(EXPR_DOT|EXPR_FNAME) &&''','''        if !last_state.is_some(EXPR_DOT) &&''')],['a = 1\ndef a (b)\nend\n','def a (b)\nend\n','a = 1\nundef a, b\n'],'a method named like a local variable, with a space before its parameters','the definition is rejected')
P('p26-mid-dots','P26',[(L,'''                    let is_beg = self.lex_state.is_beg();
                    self.lex_state.set(EXPR_BEG);''','''                    let is_beg = self.lex_state.is_some(EXPR_BEG | EXPR_CLASS);
                    self.lex_state.set(EXPR_BEG);''')],['a b: ..1\n','return ..1\n','[..1]\n','{a: ...2}\n'],'a beginless range as the value of a label','it is rejected')
P('p01-backslash-ff','P01',[(L,'''                            Some(Self::LF_CHAR) => return Self::tSLASH_F,
''','')],['\\\x0c','\\\x0b'],'a backslash followed by a form feed','the parser panics')
P('p25-anon-keep','P25',[(S,'''        let variables = std::mem::take(&mut *self.variables.borrow_mut());
        self.stack.borrow_mut().push(variables);''','''        let variables = std::mem::take(&mut *self.variables.borrow_mut());
        if variables.contains(ANONYMOUS_BLOCKARG) {
            self.declare_anonymous_blockarg();
        }
        self.stack.borrow_mut().push(variables);''')],['def a(&)\n  def b\n    c(&)\n  end\nend\n','def a(&)\n  c(&)\nend\n'],'a method defined inside a method with an anonymous block parameter','the inner method can forward a block it does not have')
# ---- sixth batch
DI='src/source/decoded_input.rs'; IN='src/source/input.rs'; DG='src/error/diagnostic.rs'; MC='src/lexer/parse_magic_comment.rs'
P('p02-next-block','P02',[(B,'''            }) => {
                let (args, expression_l) =
                    rewrite_args_and_loc(args, expression_l, block_args, block_body);
                Node::Next(Next {''','''            }) => {
                let (args, _) =
                    rewrite_args_and_loc(args, expression_l, block_args, block_body);
                Node::Next(Next {''')],['next a 1 do\nend\n','break a 1 do\nend\n'],'a do-block after next with a command call as its value','the range of next ends before the block it contains')
P('p21-kwbegin-parens','P21',[(B,'''                Node::Begin(Begin {
                    statements,
                    begin_l: None,
                    end_l: None,
                    ..
                }) => {
                    // Synthesized (begin) from compstmt "a; b".''','''                Node::Begin(Begin { statements, .. }) if statements.len() > 1 => {
                    // Synthesized (begin) from compstmt "a; b".''')],['begin\n  (a; b)\nend\n','begin\n  a; b\nend\n'],'a begin block whose only statement is a parenthesised group of several','the group disappears into the block')
P('p21-paren-post','P21',[(B,'''            (LoopType::While, Node::KwBegin(_)) => Box::new(Node::WhilePost(WhilePost {''','''            (LoopType::While, body_)
                if matches!(body_, Node::KwBegin(_))
                    || matches!(body_, Node::Begin(Begin { statements, .. })
                        if matches!(&statements[..], [Node::KwBegin(_)])) =>
            Box::new(Node::WhilePost(WhilePost {''')],['(begin; a; end) while b\n','begin; a; end while b\n'],'a parenthesised begin block with a while modifier','the loop is taken to run its body before the first test')
P('p15-csend-block','P15',[(B,'''            Node::CSend(CSend { args, .. }) => {
                validate_block_and_block_arg(args)?;
            }
            Node::Super''','''            Node::Super''')],['a&.b(&c) { }\n','a.b(&c) { }\n'],'a safe-navigation call with both a block argument and a block','it is accepted')
P('p20-kwsplat-pass','P20',[(B,'''            && matches!(args[len - 1], Node::BlockPass(_))
            && self.is_kwargs(&args[len - 2])''','''            && matches!(args[len - 1], Node::BlockPass(_))
            && self.is_kwargs(&args[len - 2])
            && !matches!(&args[len - 2], Node::Hash(Hash { pairs, .. }) if matches!(&pairs[..], [Node::Kwsplat(_)]))''')],['a(**b, &c)\n','a(b: 1, &c)\n','a(**b)\n'],'a call whose only keyword argument is a double splat followed by a block argument','the arguments are given as a hash literal')
P('p18-tail-two','P18',[(B,'''        if trailing_comma.is_some() {
            Box::new(Node::ArrayPatternWithTail''','''        if trailing_comma.is_some() && lbrack_t.is_none() {
            Box::new(Node::ArrayPatternWithTail''')],['case a\nin [b,]\nend\n','case a\nin b,\nend\n'],'a bracketed array pattern that ends in a comma','the pattern is no longer open-ended')
P('p10-eof-line','P10',[(DI,'''            let last_line = self.lines.last()?;
            return Some((self.lines.len() - 1, last_line.len()));''','''            let last_line = self.lines.iter().rev().find(|l| l.len() > 0 || l.start == 0)?;
            let lineno = self.lines.iter().position(|l| l.start == last_line.start)?;
            return Some((lineno, last_line.len()));''')],[],'a position at the end of a source that ends in a line feed','the end of input is placed on the last line with text',
 main='''use lib_ruby_parser::{Loc, LocExt, Parser, ParserOptions};
fn main() {
    let r = Parser::new("a\\nb\\n", ParserOptions { buffer_name: "in.rb".into(), ..Default::default() }).do_parse();
    assert_eq!((Loc { begin: 4, end: 4 }).begin_line_col(&r.input), Some((2, 0)));
}
''')
P('p11-stale-lines','P11',[(IN,'''        self.update_bytes(new_input);
        Ok(())''','''        if new_input.len() == self.len() {
            self.decoded.bytes = new_input;
        } else {
            self.update_bytes(new_input);
        }
        Ok(())''')],[],'a decoder that keeps the length of the source but moves line feeds','the lines of the undecoded source are used for the decoded one',
 main='''use lib_ruby_parser::{source::{Decoder, DecoderResult}, Parser, ParserOptions};
fn main() {
    let d = Decoder::new(Box::new(|_n: String, b: Vec<u8>| DecoderResult::Ok(b.into_iter().map(|c| if c == b'%' { b'\\n' } else { c }).collect())));
    let r = Parser::new("# encoding: x\\na%b%c # d\\n", ParserOptions { buffer_name: "in.rb".into(), decoder: Some(d), ..Default::default() }).do_parse();
    assert_eq!(r.comments.len(), 2); assert!(r.diagnostics.is_empty());
    let (line, _) = r.input.line_col_for_pos(r.comments[1].location.begin).unwrap();
    assert_eq!(line, 3);
    println!("{:?}", r.ast);
}
''')
P('p11-top-punct','P11',[(MC,'''            if !self.char_at(ptr).is_space() {
                return false;''','''            if self.char_at(ptr).is_alnum() {
                return false;''')],['; # encoding: koi8-r\na\n','# encoding: koi8-r\na\n'],'an encoding comment after a lone semicolon on the first line','it is taken for the encoding of the file')
P('p24-bang-tilde','P24',[(I,'''        if (c == b'!' || c == b'?') && !self.buffer.peek(b'=') {''','''        if (c == b'!' || c == b'?') && !self.buffer.peek(b'=') && !self.buffer.peek(b'~') {''')],['a! ~b\n','a!~b\n','a !~ b\n'],'a method name ending in an exclamation mark directly before a tilde','the exclamation mark is not part of the name')
P('p16-bracket-cond','P16',[(L,'''                    self.lex_state.set(EXPR_BEG | EXPR_LABEL);
                    self.cond.push(false);
                    self.cmdarg.push(false);
                    return result;''','''                    self.lex_state.set(EXPR_BEG | EXPR_LABEL);
                    self.cmdarg.push(false);
                    return result;'''),(L,'''                Some(b']') => {
                    self.cond.pop();
''','''                Some(b']') => {
''')],['while [a do end] do\nend\n','while (a do end) do\nend\n'],'a do-block inside square brackets in the condition of a loop','the block is taken for the body of the loop and the program rejected')
P('p16-lambda-do','P16',[(I,'''                        self.lpar_beg = -1; /* make lambda_beginning_p() == FALSE in the body of "-> do ... end" */
''','')],['-> do\n  a do\n  end\nend\n','-> do\n  a { }\nend\n','-> do\nend\n'],'a block inside the body of a lambda written with do','the program is rejected')
P('p23-sclass-def','P23',[(Y,'''                        self.context.set_in_def(false);
                        self.context.set_in_class(false);
                        self.local_push();''','''                        self.context.set_in_class(false);
                        self.local_push();''')],['def a\n  class << self\n    B = 1\n  end\nend\n','class << self\n  B = 1\nend\n'],'a constant assigned in a singleton class opened in a method','it is rejected as a dynamic constant assignment')
P('p18-key-scope','P18',[(Y,'''                | p_const p_lbracket p_kwargs rbracket
                    {
                        self.pattern_hash_keys.pop();
''','''                | p_const p_lbracket p_kwargs rbracket
                    {
''')],['case a\nin {b: A[c: 1], c: 2}\nend\n','case a\nin {b: A(c: 1), c: 2}\nend\n'],'a hash pattern with a key that also occurs in a nested constant pattern with brackets','the key is rejected as a duplicate')
P('p22-colon2-op','P22',[(Y,'''                | tCOLON3 tCONSTANT tOP_ASGN arg_rhs
                    {
                        let const_ = self.builder.const_op_assignable(
                            self.builder.const_global(
                                $<Token>1,
                                $<Token>2
                            )
                        );''','''                | tCOLON3 tCONSTANT tOP_ASGN arg_rhs
                    {
                        let const_ = self.builder.const_op_assignable(
                            self.builder.const_(
                                $<Token>2
                            )
                        );''')],['::A ||= 1\n','A ||= 1\n','::A = 1\n'],'an operator assignment to a top-level constant','the leading colons are lost')
P('p19-shadow-decl','P19',[(Y,'''                        self.max_numparam_stack.set_has_ordinary_params();
                        self.current_arg_stack.set(None);
                        self.context.set_in_argdef(false);

                        $$ = Value::MaybeNode(
                            self.builder.args(
                                Some($<Token>1),
                                $<NodeList>2,
                                Some($<Token>3)
                            )
                        );''','''                        let shadow = $<NodeList>2;
                        self.max_numparam_stack.set_has_ordinary_params();
                        self.current_arg_stack.set(None);
                        self.context.set_in_argdef(false);

                        $$ = Value::MaybeNode(
                            if shadow.is_empty() { None } else {
                            self.builder.args(
                                Some($<Token>1),
                                shadow,
                                Some($<Token>3)
                            ) }
                        );''')],['a { || b }\n','a { |;c| b }\n','a { b }\n'],'a block with an empty parameter list between bars','the list is not represented')
P('p21-case-else','P21',[(Y,'''                | k_case opt_terms
                    {
                        // TODO: there's a warning that wq/parser doesn't trigger,
                        // search for `p->case_labels`
                        $<None>$ = Value::None;
                    }
                  case_body
                  k_end
                    {
                        let CaseBody { when_bodies, opt_else } = $<CaseBody>4;
                        let (else_t, else_body) = opt_else.map(|else_| (Some(else_.else_t), else_.body)).unwrap_or_else(|| (None, None));
''','''                | k_case opt_terms
                    {
                        // TODO: there's a warning that wq/parser doesn't trigger,
                        // search for `p->case_labels`
                        $<None>$ = Value::None;
                    }
                  case_body
                  k_end
                    {
                        let CaseBody { when_bodies, opt_else } = $<CaseBody>4;
                        let (else_t, else_body) = opt_else.filter(|else_| else_.body.is_some()).map(|else_| (Some(else_.else_t), else_.body)).unwrap_or_else(|| (None, None));
''')],['case\nwhen a\nelse\nend\n','case\nwhen a\nelse b\nend\n'],'a case without a subject whose else branch is empty','the else is lost')
P('p28-elsif-eol','P28',[(Y,'''                        self.warn_eol(@1, "elsif");
''','')],['if a\nelsif\n b\nend\n','if a\nelsif b\nend\n'],'an elsif at the end of its line','the warning is not given')
P('p30-list-kind','P30',[(ST,'''            if (func & STR_FUNC_QWORDS) != 0 {
                /* no content''','''            if (func & STR_FUNC_QWORDS) != 0 && (func & STR_FUNC_EXPAND) == 0 {
                /* no content''')],['a = %I[b c\n','a = %w[b c\n'],'an interpolating word or symbol list that is never closed','it is reported as a string that is never closed')
P('p30-exponent-sign','P30',[(N,'''            self.trailing_uc(byte);
        }
        self.parse_numeric_footer''','''            self.trailing_uc(if byte.is_ascii_punctuation() { b'_' } else { byte });
        }
        self.parse_numeric_footer''')],['1e+\n','1_\n'],'an exponent with a sign and no digits','the error blames an underscore that is not there')
P('p30-option-names','P30',[(ST,'''                _ => {
                    self.tokadd(c);
                }
            }
        }

        self.buffer.pushback(c);
        if self.toklen() > 0 {''','''                _ if !result.ends_with(ch as char) && self.toklen() < 3 => {
                    self.tokadd(c);
                }
                _ => {}
            }
        }

        self.buffer.pushback(c);
        if self.toklen() > 0 {''')],['/a/zyxwq\n','/a/zy\n'],'a regexp with more than three unknown option letters','the error names only some of them')
P('p30-heredoc-name','P30',[(H,'''            DiagnosticMessage::UnterminatedHeredoc {
                heredoc_id: String::from_utf8_lossy(
                    self.buffer
                        .substr_at(eos, eos + len)
                        .expect("failed to get heredoc id for comparison"),
                )
                .into_owned(),''','''            DiagnosticMessage::UnterminatedHeredoc {
                heredoc_id: String::from_utf8_lossy(
                    self.buffer
                        .substr_at(eos, eos + len)
                        .expect("failed to get heredoc id for comparison"),
                )
                .trim()
                .into(),''')],['<<"  A"\nb\nA\n','<<A\nb\n'],'an unterminated heredoc whose quoted name begins with spaces','the name in the error is not the name that is missing')
P('p30-cvar-digit','P30',[('src/lexer/parse_atmark.rs','''        } else if c.is_digit() {
            // The following line comes from MRI, but it seems to be a bug
            // self.buffer.pushback(&c);
            if result == Self::tIVAR {''','''        } else if c.is_digit() {
            // The following line comes from MRI, but it seems to be a bug
            // self.buffer.pushback(&c);
            if result == Self::tIVAR || last_state.is_some(EXPR_FNAME) {''')],['alias a :@@1\n',':@@1\n',':@1\n'],'a symbol of a class variable that begins with a digit','the error is the one for instance variables')
P('p15-circular-nested','P15',[(Y,'''        def_name: fname
                    {
                        self.local_push();
                        self.current_arg_stack.push(None);
''','''        def_name: fname
                    {
                        self.local_push();
                        if self.current_arg_stack.top().is_none() {
                            self.current_arg_stack.push(None);
                        }
''')],['def a(b = (def c; end; b)); end\n','def a(b = b); end\n','def a(b = (def c(d = 1); end; b)); end\n'],'a method defined inside the default of a parameter that then refers to itself','the reference is not reported')
