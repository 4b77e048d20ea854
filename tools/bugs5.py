import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs2 import MYSQL, MYIMP, CMD
BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

def refused(*texts):
    return '''
	for _, s := range []string{''' + ', '.join('`%s`' % x for x in texts) + '''} {
		if stmts, err := schemalex.New().ParseString(s); err == nil {
			t.Fatalf("%d statements from %s", len(stmts), s)
		}
	}
'''
# ---------------------------------------------------------------- C25
bug('C25-a', [('parser.go', '''		ctx.skipWhiteSpaces()

		switch t := ctx.next(); t.Type {
		case COMMA:
		case RPAREN:
			break OUTER
		default:
			return newParseError(ctx, t, "expected COMMA")
		}
	}
	setter(values)''', '''		ctx.skipWhiteSpaces()

		switch t := ctx.peek(); t.Type {
		case COMMA:
			ctx.advance()
		case RPAREN:
			ctx.advance()
			break OUTER
		}
	}
	setter(values)''')],
 'two members of an ENUM or SET without a comma between them', 'the list is accepted, as if there were one',
 demo=refused("CREATE TABLE t (a ENUM('a' 'b'))", "CREATE TABLE t (a SET('a', 'b' 'c') NOT NULL, b INT)"))
bug('C25-b', [('parser.go', '''		ctx.skipWhiteSpaces()
		if t := ctx.next(); t.Type != NULL {
			return newParseError(ctx, t, "expected NULL")
		}
		set(model.ReferenceOptionSetNull)''', '''		ctx.skipWhiteSpaces()
		switch t := ctx.next(); t.Type {
		case NULL, DEFAULT:
		default:
			return newParseError(ctx, t, "expected NULL")
		}
		set(model.ReferenceOptionSetNull)''')],
 'ON DELETE SET DEFAULT', 'taken for SET NULL',
 demo=refused('CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES b (c) ON DELETE SET DEFAULT)'))
bug('C25-c', [('parser.go', '''	coloptFlagChar            = coloptSize | coloptBinary | coloptCharacterSet | coloptCollate''',
'''	coloptFlagChar            = coloptFlagDigit | coloptBinary | coloptCharacterSet | coloptCollate''')],
 'UNSIGNED or ZEROFILL on a string', 'accepted', 
 demo=refused('CREATE TABLE t (a VARCHAR (10) UNSIGNED)', 'CREATE TABLE t (a TEXT ZEROFILL)'))
bug('C25-d', [('parser.go', '''		case COMMA:
			ctx.advance()
			// Expecting another table field, keep looping''', '''		case COMMA:
			for ctx.peek().Type == COMMA {
				ctx.advance()
			}
			// Expecting another table field, keep looping''')],
 'two commas with nothing between them in a table', 'accepted: a definition that got lost goes unnoticed',
 demo=refused('CREATE TABLE t (a INT,, b INT)'))
bug('C25-e', [('parser.go', '''		case SIMPLE:
			r.SetMatch(model.ReferenceMatchSimple)
		default:
			return newParseError(ctx, t, "should FULL, PARTIAL or SIMPLE")
		}''', '''		case SIMPLE:
			r.SetMatch(model.ReferenceMatchSimple)
		case IDENT:
			r.SetMatch(model.ReferenceMatchSimple)
		default:
			return newParseError(ctx, t, "should FULL, PARTIAL or SIMPLE")
		}''')],
 'MATCH with an unknown word', 'taken for MATCH SIMPLE',
 demo=refused('CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES b (c) MATCH ful)'))
bug('C25-f', [('parser.go', '''		default:
			return newParseError(ctx, t, "expected COMMA or RPAREN")
		}
	}

	container.AddColumns(cols...)''', '''		case ON:
			// the list ends here
			ctx.rewind()
			break OUTER
		default:
			return newParseError(ctx, t, "expected COMMA or RPAREN")
		}
	}

	container.AddColumns(cols...)''')],
 'a reference whose column list is not closed before ON', 'accepted',
 demo=refused('CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES b (c ON DELETE CASCADE)'))
bug('C25-g', [('parser.go', '''	if index.HasType() {
		var typ string
		if index.IsBtree() {
			typ = "BTREE"
		} else if index.IsHash() {
			typ = "HASH"
		} else {
			typ = "NONE"
		}
		return newParseError(ctx, t, "statement already has index type declared (%s)", typ)
	}

''', '''	// in the order of preference
	had := index.IsBtree()

'''), ('parser.go', '''	case HASH:
		index.SetType(model.IndexTypeHash)
	default:
		return newParseError(ctx, t, "expected BTREE or HASH")''', '''	case HASH:
		if !had {
			index.SetType(model.IndexTypeHash)
		}
	default:
		return newParseError(ctx, t, "expected BTREE or HASH")''')],
 'USING BTREE before and USING HASH behind the columns', 'accepted, and one is lost',
 demo=refused('CREATE TABLE t (a INT, KEY USING BTREE (a) USING HASH)'))
bug('C25-h', [('parser.go', '''		case AUTO_INCREMENT:
			if err := p.parseCreateTableOptionValue(ctx, table, "AUTO_INCREMENT", NUMBER); err != nil {''', '''		case AUTO_INCREMENT:
			if err := p.parseCreateTableOptionValue(ctx, table, "AUTO_INCREMENT", NUMBER, DEFAULT, IDENT); err != nil {''')],
 'the table option AUTO_INCREMENT with a word', 'accepted',
 demo=refused('CREATE TABLE t (a INT) AUTO_INCREMENT = many', 'CREATE TABLE t (a INT) AUTO_INCREMENT DEFAULT'))
bug('C25-i', [('parser.go', '''	default:
		return newParseError(ctx, t, "not supported")
	}

	if len(sym) > 0 {
		index.SetSymbol(sym)
	}
''', '''	case CHECK:
		// not known to the model
		depth := 0
		for {
			switch t := ctx.next(); t.Type {
			case LPAREN:
				depth++
			case RPAREN:
				if depth--; depth == 0 {
					return nil
				}
			case EOF:
				return newParseError(ctx, t, "unterminated CHECK")
			}
		}
	case KEY, INDEX:
		index = model.NewIndex(model.IndexKindNormal, table.ID())
		if err := p.parseColumnIndexKey(ctx, index); err != nil {
			return err
		}
	default:
		return newParseError(ctx, t, "not supported")
	}

	if len(sym) > 0 {
		index.SetSymbol(sym)
	}
''')],
 'CONSTRAINT before a plain key', 'accepted',
 demo=refused('CREATE TABLE t (a INT, CONSTRAINT c KEY (a))'))
bug('C25-j', [('parser.go', '''	if _, err := p.parseIdents(ctx, NOT, EXISTS); err != nil {
			return nil, err
		}
		ctx.skipWhiteSpaces()
		notexists = true
	}
''', '''	ctx.skipWhiteSpaces()
		if ctx.peek().Type == NOT {
			ctx.advance()
			ctx.skipWhiteSpaces()
		}
		if t := ctx.next(); t.Type != EXISTS {
			return nil, newParseError(ctx, t, "expected EXISTS")
		}
		ctx.skipWhiteSpaces()
		notexists = true
	}
''')],
 'CREATE TABLE IF EXISTS', 'accepted as IF NOT EXISTS',
 demo=refused('CREATE TABLE IF EXISTS t (a INT)'))
bug('C25-k', [('parser.go', '''			} else if check(coloptDecimalSize) {
				strs, err := p.parseIdents(ctx, NUMBER, COMMA, NUMBER, RPAREN)
				if err != nil {
					return err
				}
				l := model.NewLength(strs[0])
				l.SetDecimal(strs[2])
				col.SetLength(l)
''', '''			} else if check(coloptDecimalSize) {
				strs, err := p.parseIdents(ctx, NUMBER, COMMA, NUMBER)
				if err != nil {
					return err
				}
				l := model.NewLength(strs[0])
				l.SetDecimal(strs[2])
				col.SetLength(l)
				ctx.skipWhiteSpaces()
				if ctx.peek().Type == RPAREN {
					ctx.advance()
				}
''')],
 'a FLOAT, DOUBLE or REAL whose size is not closed', 'accepted',
 demo=refused('CREATE TABLE t (a FLOAT (3, 2 NOT NULL, b INT)', 'CREATE TABLE t (a DOUBLE (3, 2, b INT)'))
bug('C25-l', [('parser.go', '''	default:
		return newParseError(ctx, t, "unsupported type in index option specification")
	}
	return nil
}
''', '''	case USING:
		return p.parseColumnIndexType(ctx, index)
	default:
		return newParseError(ctx, t, "unsupported type in index option specification")
	}
	return nil
}
''')],
 'USING on a FULLTEXT key', 'accepted',
 demo=refused('CREATE TABLE t (a TEXT, FULLTEXT KEY (a) USING HASH)'))
bug('C25-m', [('parser.go', '''		case UNIQUE:
			if !check(coloptKey) {
				return newParseError(ctx, t, "cannot apply UNIQUE KEY")
			}
			ctx.skipWhiteSpaces()
			if t := ctx.peek(); t.Type == KEY {
				ctx.advance()
			}
			col.SetUnique(true)''', '''		case UNIQUE:
			if !check(coloptKey) {
				return newParseError(ctx, t, "cannot apply UNIQUE KEY")
			}
			ctx.skipWhiteSpaces()
			if t := ctx.peek(); t.Type == KEY || t.Type == INDEX {
				ctx.advance()
			}
			col.SetUnique(true)''')],
 'UNIQUE INDEX as an attribute of a column', 'accepted',
 demo=refused('CREATE TABLE t (a INT UNIQUE INDEX)'))
bug('C25-n', [('parser.go', '''		switch t := ctx.next(); t.Type {
		case IDENT, BACKTICK_IDENT:
			table.SetLikeTable(t.Value)''', '''		if t := ctx.peek(); t.Type == LPAREN {
			ctx.advance()
			ctx.skipWhiteSpaces()
			defer func() {
				ctx.skipWhiteSpaces()
				ctx.next()
			}()
		}
		switch t := ctx.next(); t.Type {
		case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT:
			table.SetLikeTable(t.Value)''')],
 'LIKE with a string for the name of the table', 'accepted',
 demo=refused("CREATE TABLE t LIKE 'a'"))
bug('C25-o', [('parser.go', '''			case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
				col.SetCollation(t.Value)
			default:
				return newParseError(ctx, t, "expected collation name")
			}''', '''			case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY, DEFAULT:
				col.SetCollation(t.Value)
			case COMMA, RPAREN:
				ctx.rewind()
			default:
				return newParseError(ctx, t, "expected collation name")
			}''')],
 'COLLATE without a name', 'accepted, and the clause is lost',
 demo=refused('CREATE TABLE t (a TEXT COLLATE)', 'CREATE TABLE t (a TEXT COLLATE, b INT)'))
