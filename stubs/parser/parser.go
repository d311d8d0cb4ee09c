// Package parser is a stand-in for vimagination.zapto.org/parser, which cannot
// be fetched in this sandbox.
package parser

import (
	"errors"
	"io"
	"strings"
	"unicode/utf8"
)

// TokenType is the kind of a token.
type TokenType int

// The types every parser has.
const (
	TokenDone TokenType = -1 - iota
	TokenError
)

// Token is what a tokeniser makes.
type Token struct {
	Type TokenType
	Data string
}

// TokenFunc makes the next token, and names its successor.
type TokenFunc func(*Tokeniser) (Token, TokenFunc)

// Tokeniser cuts a string into tokens.
type Tokeniser struct {
	data       string
	start, pos int
	Err        error
	state      TokenFunc
}

// NewByteTokeniser makes a Tokeniser of a byte slice.
func NewByteTokeniser(data []byte) Tokeniser { return Tokeniser{data: string(data)} }

// NewStringTokeniser makes a Tokeniser of a string.
func NewStringTokeniser(data string) Tokeniser { return Tokeniser{data: data} }

// Peek returns the next rune, or -1 at the end.
func (t *Tokeniser) Peek() rune {
	if t.pos >= len(t.data) {
		return -1
	}
	r, _ := utf8.DecodeRuneInString(t.data[t.pos:])
	return r
}

func (t *Tokeniser) next() rune {
	if t.pos >= len(t.data) {
		return -1
	}
	r, s := utf8.DecodeRuneInString(t.data[t.pos:])
	t.pos += s
	return r
}

// Accept takes the next rune if it is one of chars.
func (t *Tokeniser) Accept(chars string) bool {
	r := t.Peek()
	if r < 0 || !strings.ContainsRune(chars, r) {
		return false
	}
	t.next()
	return true
}

// AcceptRun takes runes while they are in chars.
func (t *Tokeniser) AcceptRun(chars string) rune {
	for t.Accept(chars) {
	}
	return t.Peek()
}

// Except takes the next rune if it is not one of chars.
func (t *Tokeniser) Except(chars string) bool {
	r := t.Peek()
	if r < 0 || strings.ContainsRune(chars, r) {
		return false
	}
	t.next()
	return true
}

// ExceptRun takes runes until one is in chars.
func (t *Tokeniser) ExceptRun(chars string) rune {
	for t.Except(chars) {
	}
	return t.Peek()
}

// Get returns what has been taken since the last Get.
func (t *Tokeniser) Get() string {
	s := t.data[t.start:t.pos]
	t.start = t.pos
	return s
}

// Done ends the token stream.
func (t *Tokeniser) Done() (Token, TokenFunc) {
	t.Err = io.EOF
	return Token{Type: TokenDone}, (*Tokeniser).Done
}

// Error ends the token stream with an error.
func (t *Tokeniser) Error() (Token, TokenFunc) {
	if t.Err == nil {
		t.Err = ErrUnknownError
	}
	return Token{Type: TokenError, Data: t.Err.Error()}, (*Tokeniser).Error
}

// TokeniserState sets the function that makes the next token.
func (t *Tokeniser) TokeniserState(f TokenFunc) { t.state = f }

func (t *Tokeniser) get() Token {
	if t.Err == io.EOF {
		return Token{Type: TokenDone}
	}
	if t.state == nil {
		t.Err = ErrNoState
		t.state = (*Tokeniser).Error
	}
	var tk Token
	tk, t.state = t.state(t)
	return tk
}

// Parser groups tokens.
type Parser struct {
	Tokeniser
	tokens []Token
	peeked bool
}

// New makes a Parser.
func New(t Tokeniser) Parser { return Parser{Tokeniser: t} }

func (p *Parser) next() Token {
	if p.peeked {
		p.peeked = false
		return p.tokens[len(p.tokens)-1]
	}
	t := p.Tokeniser.get()
	p.tokens = append(p.tokens, t)
	return t
}

func (p *Parser) backup() { p.peeked = true }

// Peek returns the next token without taking it.
func (p *Parser) Peek() Token {
	t := p.next()
	p.backup()
	return t
}

// Accept takes the next token if its type is one of types.
func (p *Parser) Accept(types ...TokenType) bool {
	t := p.next()
	for _, ty := range types {
		if t.Type == ty {
			return true
		}
	}
	p.backup()
	return false
}

// AcceptRun takes tokens while their types are in types.
func (p *Parser) AcceptRun(types ...TokenType) TokenType {
	for p.Accept(types...) {
	}
	return p.Peek().Type
}

// Get returns the tokens taken since the last Get.
func (p *Parser) Get() []Token {
	n := len(p.tokens)
	if p.peeked {
		n--
	}
	toRet := append([]Token(nil), p.tokens[:n]...)
	p.tokens = append([]Token(nil), p.tokens[n:]...)
	return toRet
}

// Errors.
var (
	ErrNoState      = errors.New("no state")
	ErrUnknownError = errors.New("unknown error")
)
