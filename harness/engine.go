package main

import (
	"fmt"
	"path/filepath"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
)

// newEngine makes an engine whose temporary files stay in the scratch directory.
func (c *Ctx) newEngine() *ms.Engine {
	e := ms.NewEngine()
	e.TmpPath = filepath.Join(c.Scratch, "tmp")
	return e
}

// load applies rule text to a fresh engine; the text must be accepted.
func (c *Ctx) load(text string) *ms.Engine {
	e := c.newEngine()
	c.loadInto(e, text)
	return e
}

func (c *Ctx) loadInto(e *ms.Engine, text string) {
	ds, err := seclang.NewDireSetFromSecLangString(text)
	if err != nil {
		c.Set("rules", text)
		c.Fail("load-refused", "a valid rule text was refused: %v", err)
	}
	if err := ds.Execute(e); err != nil {
		c.Set("rules", text)
		c.Fail("execute-refused", "a valid configuration could not be applied: %v", err)
	}
}

func (c *Ctx) tx(e *ms.Engine) *ms.Transaction {
	t, err := e.NewTransaction()
	if err != nil {
		panic(fmt.Sprintf("no transaction: %v", err))
	}
	return t
}
