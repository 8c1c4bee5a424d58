package main

import (
	"bytes"
	"strings"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/spdx/common"
)

func init() { handlers["analyzed"] = runAnalyzed }

// runAnalyzed reads a document and takes it through writes, reads and
// conversions.
func runAnalyzed(c *Case) (out []Mismatch) {
	label := c.str("label")
	c.T.label(c.str("f"))
	c.T.exec(1)
	v := c.num("v")
	var cur common.AnyDocument
	if c.str("f") == "memory" {
		cur = docFrom(v, c.M["doc"])
	} else {
		cur = newDoc(v)
		if err := formats[c.str("f")].read(strings.NewReader(c.str("text")), cur); err != nil {
			return append(out, bad("read", "%s: reading fails: %s", label, clip(err.Error())))
		}
	}
	for _, step := range c.strs("path") {
		c.T.exec(1)
		if f, ok := formats[step]; ok {
			text, err := f.bytes(cur)
			if err != nil {
				return append(out, bad("write", "%s: writing fails: %s", label, clip(err.Error())))
			}
			cur = newDoc(v)
			if err := f.read(bytes.NewReader(text), cur); err != nil {
				return append(out, bad("reread", "%s: what was written cannot be read: %s", label, clip(err.Error())))
			}
			continue
		}
		v = verOf("SPDX-2." + step[1:])
		to := newDoc(v)
		if err := convert.Document(cur, to); err != nil {
			return append(out, bad("convert", "%s: conversion fails: %s", label, clip(err.Error())))
		}
		cur = to
	}
	if df := diff("Document", abstractDoc(cur), normDoc(c.M["want"])); df != "" {
		out = append(out, bad("analyzed", "%s: %s", label, df))
	}
	return
}
