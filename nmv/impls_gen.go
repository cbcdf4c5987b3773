// Code generated by tools/mkimpl.py; DO NOT EDIT.

package main

import (
	"net/http"

	nm "github.com/shohruhadham/nanomux"
)

type gi0 int

func (x *gi0) HandleQ2(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi0.HandleQ2", w, r, a)
}

func (x *gi0) HandleLock(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi0.HandleLock", w, r, a)
}

type gi1 int

func (x gi1) HandleLink(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, coreOf(int(x)), "gi1.HandleLink", w, r, a)
}

func (x gi1) HandleLock(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandleLock", w, r, a)
}

func (x gi1) HandleAny(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandleAny", w, r, a)
}

func (x *gi1) HandlePropfind(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi1.HandlePropfind", w, r, a)
}

func (x *gi1) HandleConnect(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi1.HandleConnect", w, r, a)
}

func (x gi1) Handles(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, coreOf(int(x)), "gi1.Handles", w, r, a)
}

func (x gi1) HandleNotify(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, coreOf(int(x)), "gi1.HandleNotify", w, r, a)
}

func (x gi1) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandlePut", w, r, a)
}

func (x gi1) HandleAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, coreOf(int(x)), "gi1.HandleAllowedMethod", w, r, a)
}

func (x gi1) HandleQ6(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandleQ6", w, r, a)
}

func (x gi1) HandleQ3(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandleQ3", w, r, a)
}

func (x *gi1) HandleQ8(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, coreOf(int((*x))), "gi1.HandleQ8", w, r, a)
}

func (x gi1) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandleNotAllowedMethod", w, r, a)
}

func (x gi1) HandleMkcol(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandleMkcol", w, r, a)
}

func (x *gi1) HandlePing(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, coreOf(int((*x))), "gi1.HandlePing", w, r, a)
}

func (x gi1) HandleLabel(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandleLabel", w, r, a)
}

func (x gi1) HandleGetAll(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandleGetAll", w, r, a)
}

func (x *gi1) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, coreOf(int((*x))), "gi1.HandlePost", w, r, a)
}

func (x gi1) HandleQ2(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, coreOf(int(x)), "gi1.HandleQ2", w, r, a)
}

func (x gi1) HandlePurge(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandlePurge", w, r, a)
}

func (x *gi1) HandleTrace(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi1.HandleTrace", w, r, a)
}

func (x gi1) HandleMerge(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandleMerge", w, r, a)
}

func (x *gi1) HandleGetX(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, coreOf(int((*x))), "gi1.HandleGetX", w, r, a)
}

func (x gi1) HandleZz(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, coreOf(int(x)), "gi1.HandleZz", w, r, a)
}

type gi2 struct {
	c    *implCore
	name string
}

func (x *gi2) HandleNotify(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi2.HandleNotify", w, r, a)
}

func (x *gi2) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi2.HandleGet", w, r, a)
}

func (x *gi2) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi2.HandlePut", w, r, a)
}

func (x *gi2) HandleHead(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi2.HandleHead", w, r, a)
}

func (x *gi2) HandleQ4(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi2.HandleQ4", w, r, a)
}

func (x *gi2) HandleB2(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi2.HandleB2", w, r, a)
}

func (x *gi2) HandleTrace(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi2.HandleTrace", w, r, a)
}

func (x *gi2) HandleMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi2.HandleMethod", w, r, a)
}

func (x *gi2) HandleMSearch(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi2.HandleMSearch")
	return false
}

func (x *gi2) HandleBind(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi2.HandleBind", w, r, a)
}

func (x *gi2) HandlePost(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi2.HandlePost", w, r, a)
}

func (x *gi2) HandleQ1(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi2.HandleQ1", w, r, a)
}

func (x *gi2) PostHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi2.PostHandle", w, r, a)
}

type gi3 struct {
	c    *implCore
	A, B int
}

func (x gi3) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi3.HandleDelete", w, r, a)
}

func (x gi3) HandleQ5(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi3.HandleQ5", w, r, a)
}

func (x gi3) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi3.HandleGet", w, r, a)
}

func (x gi3) HandleGetX(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi3.HandleGetX", w, r, a)
}

type gi4 struct {
	c    *implCore
	name string
}

func (x gi4) HandleGetX(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi4.HandleGetX", w, r, a)
}

func (x gi4) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi4.HandleDelete", w, r, a)
}

func (x gi4) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi4.HandleTrace", w, r, a)
}

func (x gi4) HandleConnect(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi4.HandleConnect", w, r, a)
}

func (x gi4) HandleQ5(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi4.HandleQ5", w, r, a)
}

func (x gi4) Handler(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi4.Handler", w, r, a)
}

func (x gi4) HandleA(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi4.HandleA", w, r, a)
}

func (x gi4) HandleOptionss(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi4.HandleOptionss", w, r, a)
}

func (x gi4) HandleBind(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi4.HandleBind", w, r, a)
}

func (x gi4) String2(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi4.String2", w, r, a)
}

func (x gi4) NotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi4.NotAllowedMethod", w, r, a)
}

type gi5 struct {
	c *implCore
}

func (x *gi5) HandleMerge(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi5.HandleMerge", w, r, a)
}

func (x *gi5) HandleUnlock(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi5.HandleUnlock")
	return false
}

func (x gi5) HandlePost(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi5.HandlePost")
	return false
}

func (x gi5) HandleSubscribe(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi5.HandleSubscribe", w, r, a)
}

func (x *gi5) HandleConnect() nm.Handler {
	badCall("gi5.HandleConnect")
	return nil
}

func (x gi5) HandleAny(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi5.HandleAny")
	return false
}

func (x gi5) Handleget(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi5.Handleget")
	return false
}

func (x gi5) HandleOPTIONS(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi5.HandleOPTIONS")
	return false
}

func (x *gi5) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi5.HandleGet", w, r, a)
}

func (x *gi5) HandlePurge(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi5.HandlePurge")
	return 0
}

func (x gi5) HandleNotAllowedMethod() nm.Handler {
	badCall("gi5.HandleNotAllowedMethod")
	return nil
}

func (x *gi5) HandleHead(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi5.HandleHead", w, r, a)
}

func (x gi5) HandleOptions(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi5.HandleOptions")
	return false
}

func (x *gi5) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi5.HandlePatch", w, r, a)
}

type gi6 struct {
	c    *implCore
	A, B int
}

func (x *gi6) HandleLock(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleLock", w, r, a)
}

func (x *gi6) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleConnect", w, r, a)
}

func (x *gi6) HandleQ5(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleQ5", w, r, a)
}

func (x *gi6) HandleA(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleA", w, r, a)
}

func (x *gi6) HandleMkcol(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleMkcol", w, r, a)
}

func (x *gi6) HandleQ3(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleQ3", w, r, a)
}

func (x *gi6) HandleOption(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleOption", w, r, a)
}

func (x *gi6) HandleZz(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleZz", w, r, a)
}

func (x *gi6) HandleLabel(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleLabel", w, r, a)
}

func (x *gi6) HandleAny(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleAny", w, r, a)
}

func (x *gi6) HandleMerge(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.HandleMerge", w, r, a)
}

func (x *gi6) HandleZ(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleZ", w, r, a)
}

func (x *gi6) HandleBind(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.HandleBind", w, r, a)
}

func (x *gi6) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleNotAllowedMethod", w, r, a)
}

func (x *gi6) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleOptions", w, r, a)
}

func (x *gi6) HandleCopy(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.HandleCopy", w, r, a)
}

func (x *gi6) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandlePatch", w, r, a)
}

func (x *gi6) HandleMSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleMSearch", w, r, a)
}

func (x *gi6) HandleQ8(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleQ8", w, r, a)
}

func (x *gi6) HandleQ7(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.HandleQ7", w, r, a)
}

func (x *gi6) HandleQ4(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleQ4", w, r, a)
}

func (x *gi6) HandleGetAll(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.HandleGetAll", w, r, a)
}

func (x *gi6) HandleAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleAllowedMethod", w, r, a)
}

func (x *gi6) HandleNotAllowed(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleNotAllowed", w, r, a)
}

func (x *gi6) HandleDELETE(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleDELETE", w, r, a)
}

func (x *gi6) HandleHead(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.HandleHead", w, r, a)
}

func (x *gi6) Handler(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.Handler", w, r, a)
}

func (x *gi6) HandlePut(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.HandlePut", w, r, a)
}

func (x *gi6) HandleSearch(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.HandleSearch", w, r, a)
}

func (x *gi6) HandleX(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleX", w, r, a)
}

func (x *gi6) HandleMove(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.HandleMove", w, r, a)
}

func (x *gi6) Handles(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi6.Handles", w, r, a)
}

func (x *gi6) HandleЖук(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.HandleЖук", w, r, a)
}

func (x *gi6) HandleQ1(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleQ1", w, r, a)
}

func (x *gi6) HandleGet2(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.HandleGet2", w, r, a)
}

func (x *gi6) handlePut(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi6.handlePut", w, r, a)
}

func (x *gi6) Get(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi6.Get", w, r, a)
}

type gi7 struct {
	c *implCore
}

func (x *gi7) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi7.HandleDelete", w, r, a)
}

func (x *gi7) HandleA(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi7.HandleA", w, r, a)
}

func (x *gi7) HandleConnect(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi7.HandleConnect", w, r, a)
}

func (x *gi7) Handl(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi7.Handl", w, r, a)
}

type gi8 struct {
	c    *implCore
	name string
}

func (x gi8) HandleGetAll(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi8.HandleGetAll", w, r, a)
}

func (x gi8) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi8.HandleTrace", w, r, a)
}

type gi9 []*implCore

func (x gi9) HandleQ5(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x[0], "gi9.HandleQ5", w, r, a)
}

func (x gi9) HandleX(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x[0], "gi9.HandleX", w, r, a)
}

type gi10 struct {
	c    *implCore
	A, B int
}

func (x gi10) HandleOptions(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi10.HandleOptions", w, r, a)
}

func (x gi10) HandleЖук(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi10.HandleЖук", w, r, a)
}

func (x gi10) HandleGetAll(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi10.HandleGetAll", w, r, a)
}

func (x gi10) HandleMkcol(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi10.HandleMkcol", w, r, a)
}

func (x gi10) Handle_Low(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi10.Handle_Low", w, r, a)
}

func (x gi10) HandleBind(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi10.HandleBind", w, r, a)
}

func (x gi10) HandleMove(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi10.HandleMove", w, r, a)
}

func (x gi10) HandleQ1(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi10.HandleQ1", w, r, a)
}

func (x gi10) HandleLock(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi10.HandleLock", w, r, a)
}

func (x gi10) HandleError(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi10.HandleError", w, r, a)
}

func (x gi10) HandleZz(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi10.HandleZz", w, r, a)
}

func (x gi10) HandleA(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi10.HandleA", w, r, a)
}

func (x gi10) HandleSubscribe(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi10.HandleSubscribe", w, r, a)
}

type gi11 struct {
	c *implCore
}

func (x *gi11) HandleMSearch(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi11.HandleMSearch", w, r, a)
}

func (x *gi11) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi11.HandleOptions", w, r, a)
}

func (x *gi11) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi11.HandleDelete", w, r, a)
}

func (x *gi11) HandleNotAllowed(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi11.HandleNotAllowed", w, r, a)
}

func (x *gi11) GetHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi11.GetHandle", w, r, a)
}

func (x *gi11) Handl(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi11.Handl", w, r, a)
}

func (x *gi11) handlePut(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi11.handlePut", w, r, a)
}

type gi12[E any] struct {
	c *implCore
	e E
}

func (x gi12[E]) HandleShare(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi12.HandleShare", w, r, a)
}

func (x *gi12[E]) HandlePOST(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi12.HandlePOST", w, r, a)
}

func (x gi12[E]) HandleZz(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi12.HandleZz", w, r, a)
}

func (x *gi12[E]) HandleHead(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi12.HandleHead", w, r, a)
}

func (x gi12[E]) HandleSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi12.HandleSearch", w, r, a)
}

func (x *gi12[E]) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi12.HandleOptions", w, r, a)
}

func (x gi12[E]) HandlePut(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi12.HandlePut", w, r, a)
}

func (x *gi12[E]) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi12.HandleConnect", w, r, a)
}

func (x *gi12[E]) HandleHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi12.HandleHandle", w, r, a)
}

func (x gi12[E]) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi12.HandleDelete", w, r, a)
}

func (x gi12[E]) HandleNotify(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi12.HandleNotify", w, r, a)
}

func (x gi12[E]) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi12.HandleNotAllowedMethod", w, r, a)
}

func (x gi12[E]) XHandleGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi12.XHandleGet", w, r, a)
}

type gi13 struct {
	c    *implCore
	A, B int
}

func (x *gi13) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi13.HandlePost", w, r, a)
}

func (x *gi13) HandleConnect(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi13.HandleConnect", w, r, a)
}

func (x *gi13) HandleAcl(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi13.HandleAcl", w, r, a)
}

func (x *gi13) HandleTrace(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi13.HandleTrace", w, r, a)
}

func (x *gi13) Handleoptions(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi13.Handleoptions", w, r, a)
}

type gi14 struct {
	c    *implCore
	name string
}

func (x *gi14) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi14.HandleOptions", w, r, a)
}

func (x *gi14) HandleReport(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleReport", w, r, a)
}

func (x *gi14) HandleOptionss(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleOptionss", w, r, a)
}

func (x *gi14) HandleError(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi14.HandleError", w, r, a)
}

func (x *gi14) HandleBind(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi14.HandleBind", w, r, a)
}

func (x *gi14) HandlePatch(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi14.HandlePatch", w, r, a)
}

func (x *gi14) HandleGET(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleGET", w, r, a)
}

func (x *gi14) HandleMSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleMSearch", w, r, a)
}

func (x *gi14) Handle_Low(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi14.Handle_Low", w, r, a)
}

func (x *gi14) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi14.HandleTrace", w, r, a)
}

func (x *gi14) HandleQ8(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi14.HandleQ8", w, r, a)
}

func (x *gi14) HandleHandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleHandleGet", w, r, a)
}

func (x *gi14) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleDelete", w, r, a)
}

func (x *gi14) HandleQ4(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi14.HandleQ4", w, r, a)
}

func (x *gi14) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleNotAllowedMethod", w, r, a)
}

func (x *gi14) HandlePOST(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi14.HandlePOST", w, r, a)
}

func (x *gi14) HandleQ3(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi14.HandleQ3", w, r, a)
}

func (x *gi14) Handles(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi14.Handles", w, r, a)
}

func (x *gi14) HandleA(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleA", w, r, a)
}

func (x *gi14) HandleNotAllowed(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleNotAllowed", w, r, a)
}

func (x *gi14) HandleQ6(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleQ6", w, r, a)
}

func (x *gi14) HandleOption(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi14.HandleOption", w, r, a)
}

type gi15 map[string]*implCore

func (x *gi15) Handled(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi15.Handled")
	return false
}

func (x gi15) HandleB2() nm.Handler {
	badCall("gi15.HandleB2")
	return nil
}

func (x gi15) HandleQ7(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi15.HandleQ7", w, r, a)
}

func (x gi15) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi15.HandleNotAllowedMethod")
	return false
}

func (x *gi15) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi15.HandleDelete")
	return 0
}

func (x *gi15) HandleQ8(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi15.HandleQ8")
	return false
}

func (x gi15) HandleOption(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi15.HandleOption", w, r, a)
}

type gi16 map[string]*implCore

func (x *gi16) HandleZz(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi16.HandleZz", w, r, a)
}

func (x *gi16) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi16.HandleDelete", w, r, a)
}

func (x *gi16) HandleB2(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)["c"], "gi16.HandleB2", w, r, a)
}

func (x *gi16) handlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi16.handlePut", w, r, a)
}

type gi17 struct {
	c    *implCore
	name string
}

func (x *gi17) Handleget(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi17.Handleget", w, r, a)
}

func (x *gi17) HandleSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi17.HandleSearch", w, r, a)
}

func (x *gi17) HandleAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi17.HandleAllowedMethod", w, r, a)
}

func (x *gi17) HandlePatch(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi17.HandlePatch", w, r, a)
}

func (x *gi17) HandleQ9(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi17.HandleQ9", w, r, a)
}

func (x *gi17) Handle_Low(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi17.Handle_Low", w, r, a)
}

func (x *gi17) HandleNotify(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi17.HandleNotify", w, r, a)
}

func (x *gi17) HandleUnlock(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi17.HandleUnlock", w, r, a)
}

func (x *gi17) HandleAcl(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi17.HandleAcl", w, r, a)
}

func (x *gi17) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi17.HandleNotAllowedMethod", w, r, a)
}

func (x *gi17) HandleGetAll(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi17.HandleGetAll", w, r, a)
}

func (x *gi17) HandleCopy(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi17.HandleCopy", w, r, a)
}

func (x *gi17) HandleTrace(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi17.HandleTrace", w, r, a)
}

func (x *gi17) HandlePurge(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi17.HandlePurge", w, r, a)
}

func (x *gi17) HandleQ1(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi17.HandleQ1", w, r, a)
}

func (x *gi17) HandleQ7(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi17.HandleQ7", w, r, a)
}

func (x *gi17) handlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi17.handlePut", w, r, a)
}

func (x *gi17) handleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi17.handleNotAllowedMethod", w, r, a)
}

type gi18 map[string]*implCore

func (x *gi18) HandleHEAD() nm.Handler {
	badCall("gi18.HandleHEAD")
	return nil
}

func (x *gi18) HandlePUT(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi18.HandlePUT", w, r, a)
}

func (x *gi18) Get(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi18.Get", w, r, a)
}

func (x *gi18) HANDLEGet(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi18.HANDLEGet", w, r, a)
}

func (x *gi18) XHandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi18.XHandleGet", w, r, a)
}

func (x *gi18) HandlGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi18.HandlGet", w, r, a)
}

type gi19[E any] struct {
	c *implCore
	e E
}

func (x *gi19[E]) HandleNotAllowed(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi19.HandleNotAllowed", w, r, a)
}

func (x *gi19[E]) HandleGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi19.HandleGet", w, r, a)
}

func (x *gi19[E]) HandleMkcol(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi19.HandleMkcol", w, r, a)
}

func (x *gi19[E]) HandleHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi19.HandleHandle", w, r, a)
}

func (x *gi19[E]) HandleA(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi19.HandleA", w, r, a)
}

func (x *gi19[E]) HandleReport(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi19.HandleReport", w, r, a)
}

func (x *gi19[E]) Handled(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi19.Handled", w, r, a)
}

func (x *gi19[E]) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi19.HandleNotAllowedMethod", w, r, a)
}

func (x *gi19[E]) HandleQ5(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi19.HandleQ5", w, r, a)
}

func (x *gi19[E]) HandleZz(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi19.HandleZz", w, r, a)
}

func (x *gi19[E]) HandleÑu(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi19.HandleÑu", w, r, a)
}

func (x *gi19[E]) HandleOption(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi19.HandleOption", w, r, a)
}

func (x *gi19[E]) HandlePurge(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi19.HandlePurge", w, r, a)
}

func (x *gi19[E]) HandleBind(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi19.HandleBind", w, r, a)
}

func (x *gi19[E]) HandleAny(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi19.HandleAny", w, r, a)
}

type gi20 struct {
	c *implCore
}

func (x *gi20) HandleÑu(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi20.HandleÑu")
	return false
}

func (x *gi20) HandleConnect(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi20.HandleConnect")
	return false
}

func (x *gi20) HandleMethod(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi20.HandleMethod")
	return false
}

func (x *gi20) HandlePUT(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi20.HandlePUT")
	return false
}

func (x *gi20) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi20.HandleNotAllowedMethod")
	return false
}

func (x *gi20) HandleFunc(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi20.HandleFunc")
	return false
}

func (x *gi20) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi20.HandleTrace")
	return false
}

func (x *gi20) HandleOptionss() {
	badCall("gi20.HandleOptionss")
	return
}

func (x *gi20) HandleSearch() nm.Handler {
	badCall("gi20.HandleSearch")
	return nil
}

func (x *gi20) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi20.HandlePatch")
	return false
}

func (x *gi20) HandleMSearch(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi20.HandleMSearch")
	return false
}

func (x *gi20) HandleX(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi20.HandleX")
	return false
}

func (x *gi20) HandleOptions(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi20.HandleOptions")
	return false
}

type gi21 func() *implCore

func (x gi21) HandleQ6(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x(), "gi21.HandleQ6", w, r, a)
}

func (x gi21) HandleUnlink(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x(), "gi21.HandleUnlink", w, r, a)
}

func (x gi21) HandleCopy(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi21.HandleCopy")
	return false
}

func (x gi21) HandleMerge(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi21.HandleMerge", w, r, a)
}

func (x gi21) HandleÑu(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi21.HandleÑu")
	return false
}

func (x gi21) HandleQ8() nm.Handler {
	badCall("gi21.HandleQ8")
	return nil
}

func (x gi21) HandleAny(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi21.HandleAny")
	return false, nil
}

func (x gi21) HandleQ1(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi21.HandleQ1", w, r, a)
}

func (x gi21) HandlePurge(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi21.HandlePurge")
	return false
}

func (x gi21) HandleSearch(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi21.HandleSearch")
	return false
}

func (x gi21) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi21.HandleNotAllowedMethod", w, r, a)
}

func (x gi21) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi21.HandlePost", w, r, a)
}

func (x gi21) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi21.HandleConnect", w, r, a)
}

func (x gi21) HandlePatch(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi21.HandlePatch")
	return false
}

func (x gi21) HandleQ7(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x(), "gi21.HandleQ7", w, r, a)
}

func (x gi21) HandleA(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi21.HandleA", w, r, a)
}

type gi22 struct {
	c    *implCore
	A, B int
}

func (x *gi22) HandleMerge(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi22.HandleMerge", w, r, a)
}

func (x *gi22) HandleQ5(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi22.HandleQ5", w, r, a)
}

func (x *gi22) HandleSubscribe(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi22.HandleSubscribe")
	return false
}

func (x *gi22) Handleput(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi22.Handleput", w, r, a)
}

func (x *gi22) HandlePatch() nm.Handler {
	badCall("gi22.HandlePatch")
	return nil
}

func (x *gi22) HandleOption(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi22.HandleOption", w, r, a)
}

func (x *gi22) HandleQ4(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi22.HandleQ4", w, r, a)
}

func (x *gi22) HandleNotify(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi22.HandleNotify", w, r, a)
}

func (x *gi22) HandleЖук(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi22.HandleЖук")
	return false
}

func (x *gi22) HandleSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi22.HandleSearch", w, r, a)
}

func (x *gi22) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi22.HandleConnect", w, r, a)
}

func (x *gi22) HandleFunc(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi22.HandleFunc", w, r, a)
}

func (x *gi22) Handler(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi22.Handler", w, r, a)
}

func (x *gi22) HandlePurge(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi22.HandlePurge", w, r, a)
}

type gi23 struct {
	c *implCore
}

func (x gi23) HandleGetX(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi23.HandleGetX")
	return false
}

func (x gi23) HandlePurge(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi23.HandlePurge")
	return false
}

func (x gi23) HandleOptions(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi23.HandleOptions")
	return false
}

func (x gi23) HandleMerge() {
	badCall("gi23.HandleMerge")
	return
}

func (x *gi23) HandleLock(r *http.Request, w http.ResponseWriter, a *nm.Args) bool {
	badCall("gi23.HandleLock")
	return false
}

func (x *gi23) HandlePatch(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi23.HandlePatch")
	return false
}

func (x *gi23) HandleQ7(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi23.HandleQ7")
	return false, nil
}

func (x gi23) HandleGe(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi23.HandleGe")
	return false
}

func (x gi23) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi23.HandleConnect")
	return 0
}

func (x gi23) HandleMkcol(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi23.HandleMkcol")
	return false
}

func (x *gi23) HandleHead(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi23.HandleHead")
	return 0
}

func (x gi23) Get(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi23.Get", w, r, a)
}

func (x *gi23) HANDLEGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi23.HANDLEGet", w, r, a)
}

type gi24 struct {
	c    *implCore
	name string
}

func (x *gi24) HandleGetX(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi24.HandleGetX", w, r, a)
}

func (x *gi24) HandlePing(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi24.HandlePing")
	return false
}

func (x *gi24) HandleQ4(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi24.HandleQ4")
	return false
}

func (x *gi24) HandlePurge(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi24.HandlePurge", w, r, a)
}

func (x *gi24) Handled(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi24.Handled", w, r, a)
}

func (x *gi24) HandleNotify(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi24.HandleNotify", w, r, a)
}

func (x *gi24) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi24.HandleNotAllowedMethod", w, r, a)
}

func (x *gi24) HandleA(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi24.HandleA")
	return false
}

func (x *gi24) HandleReport(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi24.HandleReport")
	return
}

func (x *gi24) HandleQ2(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi24.HandleQ2")
	return false
}

func (x *gi24) Handler(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi24.Handler", w, r, a)
}

func (x *gi24) HandleÑu(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi24.HandleÑu", w, r, a)
}

func (x *gi24) HandleQ8(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi24.HandleQ8")
	return false
}

func (x *gi24) HandleShare() {
	badCall("gi24.HandleShare")
	return
}

type gi25 []*implCore

func (x *gi25) HandleQ5(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi25.HandleQ5", w, r, a)
}

func (x *gi25) NotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi25.NotAllowedMethod", w, r, a)
}

type gi26 struct {
	c *implCore
}

func (x gi26) HandleZz(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi26.HandleZz", w, r, a)
}

func (x gi26) HandleQ2(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi26.HandleQ2", w, r, a)
}

func (x *gi26) HandleMSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi26.HandleMSearch", w, r, a)
}

func (x gi26) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi26.HandleGet", w, r, a)
}

func (x gi26) HandleQ7(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi26.HandleQ7", w, r, a)
}

func (x *gi26) Handle_Low(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi26.Handle_Low", w, r, a)
}

func (x *gi26) HandleUnlink(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi26.HandleUnlink", w, r, a)
}

func (x *gi26) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi26.HandlePut", w, r, a)
}

func (x gi26) HandleHead(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi26.HandleHead", w, r, a)
}

func (x *gi26) HandleQ4(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi26.HandleQ4", w, r, a)
}

func (x gi26) HandleQ9(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi26.HandleQ9", w, r, a)
}

func (x gi26) HandleHandleGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi26.HandleHandleGet", w, r, a)
}

func (x gi26) HandleSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi26.HandleSearch", w, r, a)
}

func (x gi26) HandleUnlock(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi26.HandleUnlock", w, r, a)
}

func (x gi26) HandleMove() nm.Handler {
	badCall("gi26.HandleMove")
	return nil
}

func (x gi26) HandleLock(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi26.HandleLock", w, r, a)
}

func (x gi26) HandleAny(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi26.HandleAny", w, r, a)
}

func (x gi26) Handler(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi26.Handler", w, r, a)
}

func (x gi26) HandlePropfind(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi26.HandlePropfind", w, r, a)
}

func (x gi26) HandleQ1(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi26.HandleQ1", w, r, a)
}

func (x gi26) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi26.HandleNotAllowedMethod", w, r, a)
}

func (x gi26) HandleLink(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi26.HandleLink", w, r, a)
}

func (x gi26) HandleGetX(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi26.HandleGetX", w, r, a)
}

func (x gi26) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi26.HandleConnect", w, r, a)
}

func (x *gi26) HandleQ5(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi26.HandleQ5")
	return false, nil
}

func (x gi26) HandleError(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi26.HandleError", w, r, a)
}

func (x gi26) HandleHandle(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi26.HandleHandle", w, r, a)
}

func (x gi26) HandleOptionss(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi26.HandleOptionss", w, r, a)
}

func (x gi26) HandlePost(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi26.HandlePost", w, r, a)
}

func (x gi26) HandleQ6(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi26.HandleQ6", w, r, a)
}

func (x gi26) HandleAcl(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi26.HandleAcl", w, r, a)
}

func (x *gi26) HandleЖук(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi26.HandleЖук", w, r, a)
}

func (x gi26) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi26.HandlePatch", w, r, a)
}

func (x gi26) Handledelete(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi26.Handledelete", w, r, a)
}

func (x gi26) HandleQ3(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi26.HandleQ3", w, r, a)
}

func (x gi26) handleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi26.handleNotAllowedMethod", w, r, a)
}

type gi27 []*implCore

func (x *gi27) HandleCopy(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)[0], "gi27.HandleCopy", w, r, a)
}

func (x *gi27) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi27.HandleDelete", w, r, a)
}

type gi28 struct {
	c *implCore
}

func (x *gi28) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi28.HandleNotAllowedMethod", w, r, a)
}

func (x gi28) HandleAcl(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi28.HandleAcl", w, r, a)
}

func (x gi28) HandleQ1(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi28.HandleQ1", w, r, a)
}

func (x *gi28) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi28.HandlePost")
	return false, nil
}

func (x *gi28) Handler(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi28.Handler", w, r, a)
}

func (x gi28) HandleGet2(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi28.HandleGet2")
	return false
}

func (x *gi28) HandleMerge(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi28.HandleMerge")
	return false
}

func (x *gi28) HandleAny(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi28.HandleAny")
	return false
}

func (x gi28) HandleMove(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi28.HandleMove", w, r, a)
}

func (x *gi28) HandleError(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi28.HandleError", w, r, a)
}

func (x gi28) Handled(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi28.Handled", w, r, a)
}

func (x gi28) HandleGe(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi28.HandleGe")
	return false
}

func (x gi28) HandleÑu(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi28.HandleÑu", w, r, a)
}

func (x *gi28) HandleSubscribe(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi28.HandleSubscribe", w, r, a)
}

func (x *gi28) HandleLink() {
	badCall("gi28.HandleLink")
	return
}

func (x gi28) HandleQ2(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi28.HandleQ2", w, r, a)
}

func (x gi28) HandleZz(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi28.HandleZz", w, r, a)
}

func (x gi28) NotAllowedMethod(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi28.NotAllowedMethod", w, r, a)
}

func (x *gi28) Serve(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi28.Serve", w, r, a)
}

func (x gi28) handlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi28.handlePut", w, r, a)
}

func (x *gi28) String2(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi28.String2", w, r, a)
}

type gi29 map[string]*implCore

func (x *gi29) HandleUnlock(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi29.HandleUnlock", w, r, a)
}

func (x *gi29) HandleMove(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi29.HandleMove", w, r, a)
}

func (x *gi29) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi29.HandleNotAllowedMethod", w, r, a)
}

func (x *gi29) Handles(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi29.Handles", w, r, a)
}

func (x *gi29) HandlePut(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)["c"], "gi29.HandlePut", w, r, a)
}

func (x *gi29) HandlePost(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)["c"], "gi29.HandlePost", w, r, a)
}

func (x *gi29) Handled(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi29.Handled", w, r, a)
}

func (x *gi29) HandleHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi29.HandleHandle", w, r, a)
}

func (x *gi29) HandleMethod(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)["c"], "gi29.HandleMethod", w, r, a)
}

func (x *gi29) HandleB2(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)["c"], "gi29.HandleB2", w, r, a)
}

func (x *gi29) HandleGetX(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi29.HandleGetX", w, r, a)
}

func (x *gi29) HandleLink(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi29.HandleLink", w, r, a)
}

func (x *gi29) HandleMSearch(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)["c"], "gi29.HandleMSearch", w, r, a)
}

func (x *gi29) HandleReport(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi29.HandleReport", w, r, a)
}

func (x *gi29) HandleQ7(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi29.HandleQ7", w, r, a)
}

func (x *gi29) XHandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi29.XHandleGet", w, r, a)
}

func (x *gi29) handleNotAllowedMethod(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)["c"], "gi29.handleNotAllowedMethod", w, r, a)
}

func (x *gi29) GetHandle(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)["c"], "gi29.GetHandle", w, r, a)
}

func (x *gi29) NotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi29.NotAllowedMethod", w, r, a)
}

type gi30[E any] struct {
	c *implCore
	e E
}

func (x *gi30[E]) HandleHEAD(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi30.HandleHEAD")
	return false
}

func (x *gi30[E]) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi30.HandlePatch")
	return false
}

func (x *gi30[E]) HandleQ3(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi30.HandleQ3")
	return false
}

func (x *gi30[E]) HandleOption(r *http.Request, w http.ResponseWriter, a *nm.Args) bool {
	badCall("gi30.HandleOption")
	return false
}

func (x *gi30[E]) Handleget(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi30.Handleget")
	return
}

func (x *gi30[E]) Handled(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi30.Handled")
	return false
}

func (x *gi30[E]) HandlePurge(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi30.HandlePurge")
	return false
}

func (x *gi30[E]) HandleAll(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi30.HandleAll")
	return false
}

func (x *gi30[E]) HandleTrace(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi30.HandleTrace")
	return false
}

func (x *gi30[E]) HandleMove() nm.Handler {
	badCall("gi30.HandleMove")
	return nil
}

func (x *gi30[E]) HandleHead(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi30.HandleHead")
	return false
}

func (x *gi30[E]) HandleMSearch() {
	badCall("gi30.HandleMSearch")
	return
}

func (x *gi30[E]) HandleUnlock() nm.Handler {
	badCall("gi30.HandleUnlock")
	return nil
}

func (x *gi30[E]) HandleOptions(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi30.HandleOptions")
	return false
}

type gi31 map[string]*implCore

func (x *gi31) HandleMSearch(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi31.HandleMSearch")
	return false
}

func (x *gi31) HandleQ2(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi31.HandleQ2", w, r, a)
}

func (x *gi31) HandleQ4(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi31.HandleQ4", w, r, a)
}

func (x *gi31) Handlepost(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)["c"], "gi31.Handlepost", w, r, a)
}

type gi32 func() *implCore

func (x *gi32) HandleFunc(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi32.HandleFunc")
	return false
}

type gi33 struct {
	c *implCore
}

func (x gi33) HandleCopy(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi33.HandleCopy", w, r, a)
}

func (x gi33) HandleZz(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi33.HandleZz", w, r, a)
}

func (x gi33) Handleget(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi33.Handleget", w, r, a)
}

type gi34 struct {
	c    *implCore
	name string
}

func (x gi34) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi34.HandlePatch")
	return false, nil
}

func (x gi34) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi34.HandleDelete", w, r, a)
}

func (x gi34) HandlGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi34.HandlGet", w, r, a)
}

type gi35 struct {
	c    *implCore
	name string
}

func (x gi35) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi35.HandleOptions", w, r, a)
}

func (x gi35) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi35.HandleTrace", w, r, a)
}

func (x gi35) XHandleGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi35.XHandleGet", w, r, a)
}

type gi36 struct {
	c    *implCore
	A, B int
}

func (x *gi36) HandleAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi36.HandleAllowedMethod")
	return false
}

func (x *gi36) HandleUnlink(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi36.HandleUnlink")
	return false
}

func (x *gi36) HandleQ9(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi36.HandleQ9")
	return
}

func (x *gi36) HandleLabel(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi36.HandleLabel")
	return 0
}

func (x *gi36) HandleGe(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi36.HandleGe")
	return false
}

func (x *gi36) HandleA(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi36.HandleA")
	return false
}

func (x *gi36) HandleQ2(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi36.HandleQ2")
	return false
}

func (x *gi36) HandleB2(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi36.HandleB2")
	return false
}

func (x *gi36) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi36.HandleOptions")
	return false, nil
}

func (x *gi36) HandleGET(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi36.HandleGET")
	return false
}

func (x *gi36) HandleMove(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi36.HandleMove")
	return false
}

func (x *gi36) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi36.HandleNotAllowedMethod")
	return false
}

func (x *gi36) HandlePost(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi36.HandlePost")
	return false
}

func (x *gi36) HandleError(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi36.HandleError")
	return false, nil
}

func (x *gi36) Handl(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi36.Handl", w, r, a)
}

func (x *gi36) Get(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi36.Get", w, r, a)
}

type gi37 struct {
	c    *implCore
	A, B int
}

func (x gi37) HandleNotAllowedMethod(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi37.HandleNotAllowedMethod", w, r, a)
}

func (x gi37) HandleQ7(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi37.HandleQ7")
	return false
}

func (x gi37) handleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi37.handleNotAllowedMethod", w, r, a)
}

func (x gi37) Get(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi37.Get", w, r, a)
}

type gi38 struct {
	c    *implCore
	name string
}

func (x gi38) HandleTrace(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi38.HandleTrace")
	return false
}

func (x *gi38) HandleAcl(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi38.HandleAcl", w, r, a)
}

func (x gi38) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi38.HandlePut", w, r, a)
}

func (x gi38) Handleget(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi38.Handleget")
	return false, nil
}

func (x gi38) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi38.HandleGet", w, r, a)
}

func (x gi38) HandleHead(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi38.HandleHead")
	return false
}

func (x *gi38) HandleLink(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi38.HandleLink", w, r, a)
}

func (x gi38) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi38.HandleConnect", w, r, a)
}

func (x *gi38) HandleOptions(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi38.HandleOptions", w, r, a)
}

func (x gi38) HandleB2(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi38.HandleB2")
	return false, nil
}

func (x *gi38) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi38.HandlePatch")
	return false
}

func (x *gi38) HandleQ7(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi38.HandleQ7", w, r, a)
}

func (x *gi38) HandleError(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi38.HandleError", w, r, a)
}

func (x *gi38) handlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi38.handlePut", w, r, a)
}

func (x gi38) NotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi38.NotAllowedMethod", w, r, a)
}

func (x gi38) HANDLEGet(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi38.HANDLEGet", w, r, a)
}

func (x gi38) GetHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi38.GetHandle", w, r, a)
}

type gi39 struct {
	c *implCore
}

func (x gi39) HandleTrace(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleTrace", w, r, a)
}

func (x gi39) HandleMerge(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleMerge", w, r, a)
}

func (x gi39) HandleQ7(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleQ7", w, r, a)
}

func (x gi39) HandleAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi39.HandleAllowedMethod", w, r, a)
}

func (x gi39) HandleMethod(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleMethod", w, r, a)
}

func (x gi39) HandleQ3(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleQ3", w, r, a)
}

func (x gi39) HandleGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleGet", w, r, a)
}

func (x gi39) Handle_Low(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi39.Handle_Low", w, r, a)
}

func (x gi39) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi39.HandleDelete", w, r, a)
}

func (x gi39) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi39.HandleNotAllowedMethod", w, r, a)
}

func (x gi39) HandleOptions(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleOptions", w, r, a)
}

func (x gi39) HandleQ5(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleQ5", w, r, a)
}

func (x gi39) HandleA(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleA", w, r, a)
}

func (x gi39) HandleMkcol(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleMkcol", w, r, a)
}

func (x gi39) HandleSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi39.HandleSearch", w, r, a)
}

func (x gi39) HandleHead(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi39.HandleHead", w, r, a)
}

func (x gi39) HandleSubscribe(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleSubscribe", w, r, a)
}

func (x gi39) HandleCopy(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi39.HandleCopy", w, r, a)
}

func (x gi39) HandleShare(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleShare", w, r, a)
}

func (x gi39) HandleMove(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi39.HandleMove", w, r, a)
}

func (x gi39) HandleGe(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi39.HandleGe", w, r, a)
}

func (x gi39) HandleLabel(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi39.HandleLabel", w, r, a)
}

func (x gi39) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi39.HandlePut", w, r, a)
}

func (x gi39) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi39.HandleConnect", w, r, a)
}

func (x gi39) HandleUnlock(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi39.HandleUnlock", w, r, a)
}

func (x gi39) HandleMSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi39.HandleMSearch", w, r, a)
}

func (x gi39) HandlePing(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi39.HandlePing", w, r, a)
}

type gi40 int

func (x gi40) NotAllowedMethod(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, coreOf(int(x)), "gi40.NotAllowedMethod", w, r, a)
}

func (x gi40) String2(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, coreOf(int(x)), "gi40.String2", w, r, a)
}

type gi41 []*implCore

func (x gi41) HandleDELETE(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi41.HandleDELETE")
	return false
}

func (x *gi41) HandleHead() nm.Handler {
	badCall("gi41.HandleHead")
	return nil
}

func (x gi41) HandleQ5(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi41.HandleQ5")
	return false
}

func (x gi41) HandleZz(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi41.HandleZz")
	return false
}

func (x *gi41) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi41.HandleOptions")
	return
}

func (x gi41) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi41.HandleDelete")
	return false
}

func (x gi41) HandleHEAD(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi41.HandleHEAD")
	return false
}

func (x gi41) HandleOption(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi41.HandleOption")
	return false
}

func (x *gi41) HandleTrace(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi41.HandleTrace")
	return false
}

func (x gi41) HandlePut(r *http.Request, w http.ResponseWriter, a *nm.Args) bool {
	badCall("gi41.HandlePut")
	return false
}

func (x *gi41) NotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi41.NotAllowedMethod", w, r, a)
}

func (x gi41) PostHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x[0], "gi41.PostHandle", w, r, a)
}

func (x gi41) Handl(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x[0], "gi41.Handl", w, r, a)
}

func (x gi41) handle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x[0], "gi41.handle", w, r, a)
}

type gi42 int

func (x *gi42) HandlePOST(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi42.HandlePOST", w, r, a)
}

func (x *gi42) HandleTrace(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi42.HandleTrace", w, r, a)
}

type gi43[E any] struct {
	c *implCore
	e E
}

func (x *gi43[E]) HandleFunc(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi43.HandleFunc", w, r, a)
}

func (x *gi43[E]) String2(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi43.String2", w, r, a)
}

func (x *gi43[E]) PostHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi43.PostHandle", w, r, a)
}

type gi44 struct {
	c    *implCore
	A, B int
}

func (x *gi44) HandleGe(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi44.HandleGe", w, r, a)
}

func (x *gi44) HandleOptions(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi44.HandleOptions", w, r, a)
}

func (x *gi44) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi44.HandlePut", w, r, a)
}

func (x *gi44) HandleAny(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi44.HandleAny", w, r, a)
}

func (x *gi44) HandleQ4(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi44.HandleQ4", w, r, a)
}

func (x *gi44) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi44.HandleTrace", w, r, a)
}

func (x *gi44) HandleHead(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi44.HandleHead", w, r, a)
}

func (x *gi44) HandleQ9(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi44.HandleQ9", w, r, a)
}

func (x *gi44) HandleMethod(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi44.HandleMethod", w, r, a)
}

func (x *gi44) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi44.HandlePatch", w, r, a)
}

func (x *gi44) HandleConnect(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi44.HandleConnect", w, r, a)
}

func (x *gi44) HandleGet2(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi44.HandleGet2", w, r, a)
}

func (x *gi44) HandleUnlink(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi44.HandleUnlink", w, r, a)
}

func (x *gi44) handleNotAllowedMethod(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi44.handleNotAllowedMethod", w, r, a)
}

type gi45 []*implCore

func (x *gi45) HandleB2(r *http.Request, w http.ResponseWriter, a *nm.Args) bool {
	badCall("gi45.HandleB2")
	return false
}

func (x *gi45) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi45.HandleTrace", w, r, a)
}

func (x *gi45) HandleNotAllowedMethod(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi45.HandleNotAllowedMethod")
	return false
}

func (x gi45) HandleNotify(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x[0], "gi45.HandleNotify", w, r, a)
}

func (x *gi45) HandleAcl(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi45.HandleAcl", w, r, a)
}

func (x *gi45) HandlePurge(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi45.HandlePurge")
	return false
}

func (x *gi45) HandleGetX(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi45.HandleGetX")
	return false, nil
}

func (x gi45) HandleOption(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x[0], "gi45.HandleOption", w, r, a)
}

func (x *gi45) HandleFunc(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi45.HandleFunc", w, r, a)
}

func (x gi45) HandleQ9(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi45.HandleQ9")
	return false
}

func (x *gi45) HandleShare() {
	badCall("gi45.HandleShare")
	return
}

func (x *gi45) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi45.HandleDelete", w, r, a)
}

func (x *gi45) HandleCopy(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)[0], "gi45.HandleCopy", w, r, a)
}

func (x *gi45) HandleÑu(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi45.HandleÑu", w, r, a)
}

type gi46 func() *implCore

func (x *gi46) HandleOptions(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)(), "gi46.HandleOptions", w, r, a)
}

func (x gi46) HandleMSearch() {
	badCall("gi46.HandleMSearch")
	return
}

func (x gi46) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi46.HandleConnect")
	return 0
}

func (x *gi46) HandleÑu(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)(), "gi46.HandleÑu", w, r, a)
}

type gi47 []*implCore

func (x gi47) HandleOptionss(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x[0], "gi47.HandleOptionss", w, r, a)
}

func (x gi47) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x[0], "gi47.HandleNotAllowedMethod", w, r, a)
}

func (x gi47) Get(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x[0], "gi47.Get", w, r, a)
}

func (x *gi47) handleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi47.handleNotAllowedMethod", w, r, a)
}

type gi48[E any] struct {
	c *implCore
	e E
}

func (x gi48[E]) HandleNotAllowedMethod() nm.Handler {
	badCall("gi48.HandleNotAllowedMethod")
	return nil
}

func (x gi48[E]) HandleOption(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi48.HandleOption")
	return false
}

func (x gi48[E]) HandlePropfind(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi48.HandlePropfind")
	return false
}

func (x *gi48[E]) HandleMove(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi48.HandleMove")
	return false
}

func (x *gi48[E]) HandleA(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi48.HandleA")
	return false
}

func (x *gi48[E]) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi48.HandleOptions")
	return 0
}

func (x *gi48[E]) HandleDelete(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi48.HandleDelete")
	return false
}

func (x *gi48[E]) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi48.HandleConnect")
	return false
}

func (x gi48[E]) HandleMkcol(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi48.HandleMkcol")
	return 0
}

func (x *gi48[E]) HandleGetAll(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi48.HandleGetAll")
	return false
}

type gi49 struct {
	c *implCore
}

func (x *gi49) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi49.HandleNotAllowedMethod")
	return false
}

func (x gi49) HandleAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi49.HandleAllowedMethod")
	return false, nil
}

func (x gi49) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi49.HandlePut")
	return
}

func (x *gi49) HandleB2(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi49.HandleB2")
	return false
}

func (x *gi49) HandleHandleGet(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi49.HandleHandleGet")
	return false
}

func (x gi49) HandleDelete(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi49.HandleDelete")
	return false
}

func (x gi49) HandleAny(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi49.HandleAny")
	return false
}

func (x gi49) HandleShare() {
	badCall("gi49.HandleShare")
	return
}

func (x gi49) HandleQ1(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi49.HandleQ1")
	return false
}

func (x gi49) HandleMkcol(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi49.HandleMkcol")
	return false
}

func (x gi49) HandleQ6(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi49.HandleQ6")
	return false
}

func (x gi49) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi49.HandleTrace")
	return false
}

func (x gi49) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi49.HandleGet")
	return false, nil
}

func (x gi49) HandlGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi49.HandlGet", w, r, a)
}

type gi50 struct {
	c    *implCore
	A, B int
}

func (x *gi50) HandleNotAllowed() {
	badCall("gi50.HandleNotAllowed")
	return
}

func (x *gi50) HandleÑu(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi50.HandleÑu")
	return false
}

func (x *gi50) HandleAny(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi50.HandleAny")
	return false, nil
}

func (x *gi50) HandleOPTIONS(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi50.HandleOPTIONS")
	return false
}

func (x *gi50) HandleGet(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi50.HandleGet")
	return false
}

func (x *gi50) HandleMkcol(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi50.HandleMkcol")
	return false
}

func (x *gi50) Handler(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi50.Handler")
	return false
}

func (x *gi50) Handled() {
	badCall("gi50.Handled")
	return
}

func (x *gi50) HandleBind(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi50.HandleBind")
	return false
}

func (x *gi50) HandleQ2(r *http.Request, w http.ResponseWriter, a *nm.Args) bool {
	badCall("gi50.HandleQ2")
	return false
}

func (x *gi50) HandlePatch() {
	badCall("gi50.HandlePatch")
	return
}

func (x *gi50) Handles(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi50.Handles")
	return false
}

func (x *gi50) HandleQ1(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi50.HandleQ1")
	return false
}

func (x *gi50) HandleOptions() nm.Handler {
	badCall("gi50.HandleOptions")
	return nil
}

type gi51 struct {
	c *implCore
}

func (x gi51) HandlePut(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi51.HandlePut")
	return false
}

func (x gi51) HandlePatch(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi51.HandlePatch")
	return false
}

func (x *gi51) HandleGeT(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi51.HandleGeT")
	return
}

func (x gi51) HandleConnect() {
	badCall("gi51.HandleConnect")
	return
}

func (x *gi51) HandleError(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi51.HandleError")
	return false
}

func (x gi51) HandleUnlock(r *http.Request, w http.ResponseWriter, a *nm.Args) bool {
	badCall("gi51.HandleUnlock")
	return false
}

func (x *gi51) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("gi51.HandleNotAllowedMethod")
	return false
}

type gi52 map[string]*implCore

func (x *gi52) HandleOPTIONS(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi52.HandleOPTIONS", w, r, a)
}

func (x *gi52) HandleError(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi52.HandleError")
	return false
}

func (x *gi52) HandleGeT(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi52.HandleGeT")
	return
}

func (x *gi52) HandleDelete() nm.Handler {
	badCall("gi52.HandleDelete")
	return nil
}

func (x *gi52) HandleHandleGet(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi52.HandleHandleGet")
	return false
}

func (x *gi52) HandlePatch(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi52.HandlePatch")
	return false
}

func (x gi52) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x["c"], "gi52.HandleNotAllowedMethod", w, r, a)
}

func (x *gi52) HandleHead(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi52.HandleHead")
	return false, nil
}

func (x gi52) HandleMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi52.HandleMethod")
	return 0
}

func (x *gi52) HandleQ4(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi52.HandleQ4")
	return false
}

func (x gi52) HandleQ2(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x["c"], "gi52.HandleQ2", w, r, a)
}

func (x gi52) HandleQ7(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi52.HandleQ7")
	return
}

func (x *gi52) HandleMkcol(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi52.HandleMkcol", w, r, a)
}

func (x *gi52) HandleLabel() nm.Handler {
	badCall("gi52.HandleLabel")
	return nil
}

func (x *gi52) HandleЖук(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi52.HandleЖук")
	return false
}

func (x *gi52) HandleNotAllowed(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi52.HandleNotAllowed", w, r, a)
}

func (x gi52) Get(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi52.Get", w, r, a)
}

type gi53 func() *implCore

func (x *gi53) HandleGe(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)(), "gi53.HandleGe", w, r, a)
}

func (x *gi53) HandleX(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)(), "gi53.HandleX", w, r, a)
}

func (x gi53) HandleAll(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.HandleAll", w, r, a)
}

func (x gi53) HandleError(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi53.HandleError")
	return
}

func (x gi53) HandleUnlink(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi53.HandleUnlink")
	return false
}

func (x *gi53) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)(), "gi53.HandleNotAllowedMethod", w, r, a)
}

func (x gi53) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi53.HandleConnect", w, r, a)
}

func (x gi53) HandleQ8(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi53.HandleQ8", w, r, a)
}

func (x gi53) HandleReport(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.HandleReport", w, r, a)
}

func (x gi53) HandleMerge(w http.ResponseWriter, r *http.Request) bool {
	badCall("gi53.HandleMerge")
	return false
}

func (x gi53) HandlePatch(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x(), "gi53.HandlePatch", w, r, a)
}

func (x gi53) HandleGetAll(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi53.HandleGetAll", w, r, a)
}

func (x gi53) HandlePing(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.HandlePing", w, r, a)
}

func (x *gi53) HandleZ(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi53.HandleZ")
	return
}

func (x gi53) HandleAny(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.HandleAny", w, r, a)
}

func (x *gi53) HandleSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)(), "gi53.HandleSearch", w, r, a)
}

func (x gi53) HandleQ1(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.HandleQ1", w, r, a)
}

func (x gi53) HandleMethod(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x(), "gi53.HandleMethod", w, r, a)
}

func (x gi53) HandleHead(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi53.HandleHead", w, r, a)
}

func (x gi53) HandleQ6(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi53.HandleQ6", w, r, a)
}

func (x gi53) Handleoptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.Handleoptions", w, r, a)
}

func (x gi53) HandleLabel(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x(), "gi53.HandleLabel", w, r, a)
}

func (x *gi53) HandleÑu(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)(), "gi53.HandleÑu", w, r, a)
}

func (x gi53) HandleQ4(r *http.Request, w http.ResponseWriter, a *nm.Args) bool {
	badCall("gi53.HandleQ4")
	return false
}

func (x gi53) HandleNotify(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.HandleNotify", w, r, a)
}

func (x gi53) HandleTrace(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x(), "gi53.HandleTrace", w, r, a)
}

func (x gi53) HandleCopy(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi53.HandleCopy", w, r, a)
}

func (x *gi53) HandleAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)(), "gi53.HandleAllowedMethod", w, r, a)
}

func (x gi53) HandleMove(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.HandleMove", w, r, a)
}

func (x gi53) HandleUnlock(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.HandleUnlock", w, r, a)
}

func (x *gi53) HandleQ7(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)(), "gi53.HandleQ7", w, r, a)
}

func (x gi53) HandleB2(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi53.HandleB2")
	return 0
}

func (x gi53) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.HandlePost", w, r, a)
}

func (x gi53) HandleShare(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.HandleShare", w, r, a)
}

func (x gi53) HandleGet2(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi53.HandleGet2", w, r, a)
}

func (x gi53) Handle_Low(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x(), "gi53.Handle_Low", w, r, a)
}

func (x gi53) HandleЖук(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi53.HandleЖук", w, r, a)
}

func (x gi53) HandleOptionss(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi53.HandleOptionss")
	return false
}

func (x gi53) HandlGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x(), "gi53.HandlGet", w, r, a)
}

func (x gi53) XHandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x(), "gi53.XHandleGet", w, r, a)
}

type gi54 map[string]*implCore

func (x *gi54) HandleMerge(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi54.HandleMerge")
	return false, nil
}

func (x *gi54) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi54.HandleDelete")
	return false, nil
}

func (x *gi54) HandleUnlink() {
	badCall("gi54.HandleUnlink")
	return
}

func (x *gi54) GetHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi54.GetHandle", w, r, a)
}

type gi55 struct {
	c *implCore
}

func (x *gi55) HandleLink(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi55.HandleLink", w, r, a)
}

func (x *gi55) HandlePost(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi55.HandlePost", w, r, a)
}

func (x *gi55) HandleHandle(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi55.HandleHandle", w, r, a)
}

func (x *gi55) HandleQ3(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi55.HandleQ3", w, r, a)
}

func (x *gi55) HandleAcl(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi55.HandleAcl", w, r, a)
}

func (x *gi55) HandleOptionss(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi55.HandleOptionss", w, r, a)
}

func (x *gi55) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi55.HandleDelete", w, r, a)
}

func (x *gi55) HandleConnect(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi55.HandleConnect", w, r, a)
}

func (x *gi55) HandleGetAll(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi55.HandleGetAll", w, r, a)
}

func (x *gi55) HandleReport(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi55.HandleReport", w, r, a)
}

func (x *gi55) HandleNotAllowed(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi55.HandleNotAllowed", w, r, a)
}

func (x *gi55) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi55.HandleOptions", w, r, a)
}

func (x *gi55) HandleUnlink(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi55.HandleUnlink", w, r, a)
}

type gi56 struct {
	c    *implCore
	A, B int
}

func (x gi56) HandleQ7(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi56.HandleQ7", w, r, a)
}

func (x gi56) HANDLEGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi56.HANDLEGet", w, r, a)
}

func (x gi56) HandlGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi56.HandlGet", w, r, a)
}

func (x gi56) Handl(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi56.Handl", w, r, a)
}

type gi57 struct {
	c *implCore
}

func (x gi57) HandlePatch(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi57.HandlePatch")
	return false
}

func (x gi57) HandleQ8(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("gi57.HandleQ8")
	return false
}

func (x gi57) HandleGetAll(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi57.HandleGetAll", w, r, a)
}

func (x gi57) HandlePropfind(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi57.HandlePropfind", w, r, a)
}

func (x gi57) HandleNotAllowed(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi57.HandleNotAllowed", w, r, a)
}

func (x gi57) Get(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi57.Get", w, r, a)
}

type gi58 struct {
	c *implCore
}

func (x *gi58) HandleShare(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi58.HandleShare")
	return false
}

func (x *gi58) HandlePut(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi58.HandlePut")
	return false
}

func (x *gi58) HandleNotAllowedMethod(r *http.Request, w http.ResponseWriter, a *nm.Args) bool {
	badCall("gi58.HandleNotAllowedMethod")
	return false
}

func (x *gi58) HandleOptions(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi58.HandleOptions")
	return false
}

func (x *gi58) HandleB2(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi58.HandleB2")
	return false
}

func (x *gi58) Serve(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi58.Serve", w, r, a)
}

func (x *gi58) handlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi58.handlePut", w, r, a)
}

func (x *gi58) HANDLEGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi58.HANDLEGet", w, r, a)
}

func (x *gi58) HandlGet(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi58.HandlGet", w, r, a)
}

type gi59 func() *implCore

func (x *gi59) Handleoptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi59.Handleoptions")
	return false, nil
}

func (x *gi59) handle(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)(), "gi59.handle", w, r, a)
}

type gi60 struct {
	c    *implCore
	name string
}

func (x *gi60) HandleUnlock(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("gi60.HandleUnlock")
	return false
}

func (x *gi60) HandleHandle(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi60.HandleHandle")
	return false
}

func (x *gi60) HandleQ7(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi60.HandleQ7")
	return false
}

func (x *gi60) HandleTrace(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi60.HandleTrace")
	return false
}

type gi61 struct {
	c    *implCore
	A, B int
}

func (x *gi61) HandleUnlock(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("gi61.HandleUnlock")
	return false
}

func (x gi61) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi61.HandleNotAllowedMethod", w, r, a)
}

func (x *gi61) Handleput(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi61.Handleput", w, r, a)
}

func (x gi61) HandleGetAll(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("gi61.HandleGetAll")
	return false
}

func (x *gi61) HandlePatch(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi61.HandlePatch", w, r, a)
}

func (x gi61) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi61.HandleGet", w, r, a)
}

func (x *gi61) HandleError(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi61.HandleError", w, r, a)
}

func (x gi61) HandleNotAllowed(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi61.HandleNotAllowed", w, r, a)
}

func (x *gi61) Handles(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi61.Handles", w, r, a)
}

func (x gi61) HandleReport(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi61.HandleReport", w, r, a)
}

func (x gi61) HandleHead(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi61.HandleHead", w, r, a)
}

func (x gi61) HandleConnect(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi61.HandleConnect", w, r, a)
}

func (x *gi61) HandlePOST(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi61.HandlePOST", w, r, a)
}

type gi62 int

func (x *gi62) HandleHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, coreOf(int((*x))), "gi62.HandleHandle", w, r, a)
}

func (x *gi62) HandleHEAD(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, coreOf(int((*x))), "gi62.HandleHEAD", w, r, a)
}

func (x *gi62) HandleTrace(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi62.HandleTrace", w, r, a)
}

func (x *gi62) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, coreOf(int((*x))), "gi62.HandleDelete", w, r, a)
}

func (x *gi62) HandleQ6(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, coreOf(int((*x))), "gi62.HandleQ6", w, r, a)
}

func (x *gi62) HandleNotAllowed(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, coreOf(int((*x))), "gi62.HandleNotAllowed", w, r, a)
}

func (x *gi62) HandleMkcol(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, coreOf(int((*x))), "gi62.HandleMkcol", w, r, a)
}

func (x *gi62) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, coreOf(int((*x))), "gi62.HandleNotAllowedMethod", w, r, a)
}

func (x *gi62) HandleAcl(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, coreOf(int((*x))), "gi62.HandleAcl", w, r, a)
}

func (x *gi62) HandleGetAll(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, coreOf(int((*x))), "gi62.HandleGetAll", w, r, a)
}

func (x *gi62) HandleOption(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi62.HandleOption", w, r, a)
}

func (x *gi62) HandleQ5(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, coreOf(int((*x))), "gi62.HandleQ5", w, r, a)
}

func (x *gi62) HandleA(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi62.HandleA", w, r, a)
}

func (x *gi62) HandleMSearch(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, coreOf(int((*x))), "gi62.HandleMSearch", w, r, a)
}

func (x *gi62) HandleReport(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, coreOf(int((*x))), "gi62.HandleReport", w, r, a)
}

type gi63 struct {
	c    *implCore
	name string
}

func (x *gi63) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi63.HandleNotAllowedMethod", w, r, a)
}

func (x gi63) HandleQ6(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi63.HandleQ6", w, r, a)
}

func (x gi63) HandleZ(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi63.HandleZ", w, r, a)
}

func (x gi63) HandleReport(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi63.HandleReport", w, r, a)
}

func (x *gi63) HandleOptionss(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi63.HandleOptionss", w, r, a)
}

func (x gi63) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi63.HandleOptions", w, r, a)
}

func (x gi63) HandleGetX(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi63.HandleGetX", w, r, a)
}

func (x gi63) HandleMerge(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi63.HandleMerge", w, r, a)
}

func (x gi63) HandleÑu(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi63.HandleÑu", w, r, a)
}

func (x gi63) HandleAny(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi63.HandleAny", w, r, a)
}

func (x *gi63) HandleHead(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi63.HandleHead", w, r, a)
}

func (x gi63) HandlePing(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi63.HandlePing", w, r, a)
}

func (x gi63) HandlePurge(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi63.HandlePurge", w, r, a)
}

func (x *gi63) HandleЖук(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi63.HandleЖук", w, r, a)
}

func (x gi63) HandlePropfind(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi63.HandlePropfind", w, r, a)
}

func (x *gi63) HandleX(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi63.HandleX", w, r, a)
}

func (x *gi63) HandlePost(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi63.HandlePost", w, r, a)
}

func (x *gi63) HandleQ4(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi63.HandleQ4", w, r, a)
}

func (x gi63) Handler(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi63.Handler", w, r, a)
}

func (x gi63) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi63.HandleTrace", w, r, a)
}

func (x *gi63) HandleLink(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi63.HandleLink", w, r, a)
}

func (x *gi63) Handles(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi63.Handles", w, r, a)
}

func (x gi63) Handl(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi63.Handl", w, r, a)
}

type gi64 map[string]*implCore

func (x gi64) HandlePing(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi64.HandlePing", w, r, a)
}

func (x gi64) HandlePurge(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi64.HandlePurge", w, r, a)
}

func (x gi64) HandleQ2(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi64.HandleQ2")
	return
}

func (x *gi64) HandleGetX(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)["c"], "gi64.HandleGetX", w, r, a)
}

func (x gi64) HandleQ4(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x["c"], "gi64.HandleQ4", w, r, a)
}

func (x *gi64) HandleShare(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi64.HandleShare", w, r, a)
}

func (x gi64) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x["c"], "gi64.HandleGet", w, r, a)
}

func (x *gi64) HandleLabel(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi64.HandleLabel", w, r, a)
}

func (x gi64) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x["c"], "gi64.HandlePut", w, r, a)
}

func (x gi64) HandleQ9(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x["c"], "gi64.HandleQ9", w, r, a)
}

func (x *gi64) HandleLink(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi64.HandleLink", w, r, a)
}

func (x gi64) HandleNotify(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x["c"], "gi64.HandleNotify", w, r, a)
}

func (x *gi64) HandleQ8(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi64.HandleQ8", w, r, a)
}

func (x *gi64) HandleHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi64.HandleHandle", w, r, a)
}

func (x *gi64) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi64.HandleNotAllowedMethod", w, r, a)
}

func (x gi64) HandleUnlock(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x["c"], "gi64.HandleUnlock", w, r, a)
}

func (x *gi64) HandleQ6() nm.Handler {
	badCall("gi64.HandleQ6")
	return nil
}

func (x gi64) HandleHead(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi64.HandleHead", w, r, a)
}

func (x *gi64) HandleZ(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi64.HandleZ", w, r, a)
}

func (x gi64) HandleUnlink(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x["c"], "gi64.HandleUnlink", w, r, a)
}

func (x gi64) HandleAcl(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x["c"], "gi64.HandleAcl", w, r, a)
}

func (x gi64) HandleSubscribe(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi64.HandleSubscribe", w, r, a)
}

func (x *gi64) HandleMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)["c"], "gi64.HandleMethod", w, r, a)
}

func (x gi64) HandleЖук(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi64.HandleЖук", w, r, a)
}

func (x *gi64) HandleBind(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)["c"], "gi64.HandleBind", w, r, a)
}

func (x gi64) HandleReport(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi64.HandleReport", w, r, a)
}

func (x gi64) HandleNotAllowed(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x["c"], "gi64.HandleNotAllowed", w, r, a)
}

func (x gi64) HandleFunc(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi64.HandleFunc", w, r, a)
}

func (x gi64) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x["c"], "gi64.HandleTrace", w, r, a)
}

func (x gi64) HandleMove(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x["c"], "gi64.HandleMove", w, r, a)
}

func (x gi64) HandleMerge(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x["c"], "gi64.HandleMerge", w, r, a)
}

func (x gi64) Handles(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x["c"], "gi64.Handles", w, r, a)
}

type gi65 struct {
	c *implCore
}

func (x gi65) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi65.HandlePut")
	return false
}

func (x gi65) HandleHead(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("gi65.HandleHead")
	return false
}

func (x gi65) HandleZ(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("gi65.HandleZ")
	return false, nil
}

func (x gi65) HandleCopy(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi65.HandleCopy", w, r, a)
}

func (x gi65) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi65.HandleNotAllowedMethod", w, r, a)
}

func (x gi65) HandleZz(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi65.HandleZz", w, r, a)
}

func (x gi65) HandleSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi65.HandleSearch", w, r, a)
}

type gi66 struct {
	c    *implCore
	A, B int
}

func (x *gi66) HandleMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi66.HandleMethod", w, r, a)
}

func (x gi66) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi66.HandleNotAllowedMethod", w, r, a)
}

func (x *gi66) HandleB2(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi66.HandleB2", w, r, a)
}

func (x gi66) HandlePut(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi66.HandlePut", w, r, a)
}

func (x *gi66) HandleAcl(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "gi66.HandleAcl", w, r, a)
}

func (x *gi66) HandleUnlock(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi66.HandleUnlock", w, r, a)
}

func (x *gi66) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi66.HandleDelete", w, r, a)
}

func (x gi66) HandleGet(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi66.HandleGet", w, r, a)
}

func (x gi66) HandleError(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi66.HandleError", w, r, a)
}

func (x *gi66) Handled(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi66.Handled", w, r, a)
}

func (x *gi66) HandleUnlink(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "gi66.HandleUnlink", w, r, a)
}

func (x gi66) HandlePurge(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi66.HandlePurge", w, r, a)
}

func (x *gi66) HandleFunc(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "gi66.HandleFunc", w, r, a)
}

func (x gi66) HandleCopy(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi66.HandleCopy", w, r, a)
}

type gi67[E any] struct {
	c *implCore
	e E
}

func (x gi67[E]) HandleHead(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("gi67.HandleHead")
	return 0
}

func (x gi67[E]) HANDLEGet(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "gi67.HANDLEGet", w, r, a)
}

type gi68 []*implCore

func (x *gi68) HandleLabel(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi68.HandleLabel", w, r, a)
}

func (x *gi68) HandleQ4() {
	badCall("gi68.HandleQ4")
	return
}

func (x *gi68) HandleUnlink(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi68.HandleUnlink", w, r, a)
}

func (x *gi68) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi68.HandleNotAllowedMethod", w, r, a)
}

func (x *gi68) HandleGe(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("gi68.HandleGe")
	return false
}

func (x *gi68) HandleFunc(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)[0], "gi68.HandleFunc", w, r, a)
}

func (x *gi68) HandleQ9(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi68.HandleQ9", w, r, a)
}

func (x *gi68) HandleCopy(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi68.HandleCopy", w, r, a)
}

func (x *gi68) HandleMerge(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi68.HandleMerge", w, r, a)
}

func (x *gi68) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi68.HandleGet", w, r, a)
}

func (x *gi68) HandleHandle(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)[0], "gi68.HandleHandle", w, r, a)
}

func (x *gi68) HandleAny(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi68.HandleAny", w, r, a)
}

func (x *gi68) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi68.HandleConnect", w, r, a)
}

func (x *gi68) Handleput(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)[0], "gi68.Handleput", w, r, a)
}

func (x *gi68) HandleQ3(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi68.HandleQ3", w, r, a)
}

func (x *gi68) HandleGet2(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)[0], "gi68.HandleGet2", w, r, a)
}

func (x *gi68) HandleQ6(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x)[0], "gi68.HandleQ6", w, r, a)
}

func (x *gi68) HandleQ7(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi68.HandleQ7", w, r, a)
}

func (x *gi68) HandleHandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi68.HandleHandleGet", w, r, a)
}

func (x *gi68) handleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x)[0], "gi68.handleNotAllowedMethod", w, r, a)
}

func (x *gi68) Handl(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x)[0], "gi68.Handl", w, r, a)
}

type gi69 struct {
	c    *implCore
	A, B int
}

func (x gi69) HandleGetX() {
	badCall("gi69.HandleGetX")
	return
}

func (x gi69) HandlePatch() nm.Handler {
	badCall("gi69.HandlePatch")
	return nil
}

func (x gi69) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("gi69.HandleOptions")
	return
}

func (x gi69) HandleHandle(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi69.HandleHandle", w, r, a)
}

func (x gi69) HandleQ3(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi69.HandleQ3", w, r, a)
}

func (x gi69) HandleHEAD(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi69.HandleHEAD", w, r, a)
}

func (x gi69) HandleMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi69.HandleMethod", w, r, a)
}

func (x gi69) GetHandle(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "gi69.GetHandle", w, r, a)
}

func (x gi69) HandlGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "gi69.HandlGet", w, r, a)
}

type ge0 struct {
	*gi2
	*gi35
	gi55
	c *implCore
}

type ge1 struct {
	gi23
	*gi38
	implIface
	HandlePatch int
	c           *implCore
}

func (x *ge1) HandleMkcol(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("ge1.HandleMkcol")
	return false
}

func (x *ge1) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "ge1.HandleOptions", w, r, a)
}

func (x ge1) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("ge1.HandleNotAllowedMethod")
	return false, nil
}

type ge2 struct {
	*gi61
	gi33
	c *implCore
}

type ge3 struct {
	gi57
	gi38
	*gi65
	HandleUnlock int
	c            *implCore
}

func (x ge3) HandleShare(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "ge3.HandleShare", w, r, a)
}

func (x ge3) HandleLock(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "ge3.HandleLock", w, r, a)
}

func (x *ge3) HandleMSearch(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("ge3.HandleMSearch")
	return false
}

type ge4 struct {
	ge3
	implIface
	HandleX int
	c       *implCore
}

func (x ge4) HandleMkcol() {
	badCall("ge4.HandleMkcol")
	return
}

func (x *ge4) HandleDelete(r *http.Request, w http.ResponseWriter, a *nm.Args) bool {
	badCall("ge4.HandleDelete")
	return false
}

func (x *ge4) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "ge4.HandleOptions", w, r, a)
}

type ge5 struct {
	*ge3
	*gi13
	HandleDelete int
	c            *implCore
}

type ge6 struct {
	*gi51
	c *implCore
}

func (x ge6) HandleZ(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "ge6.HandleZ", w, r, a)
}

func (x *ge6) HandleLock(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("ge6.HandleLock")
	return false
}

func (x ge6) HandleGet() {
	badCall("ge6.HandleGet")
	return
}

type ge7 struct {
	*gi11
	*gi58
	c *implCore
}

func (x ge7) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "ge7.HandlePost", w, r, a)
}

func (x *ge7) HandlePropfind() nm.Handler {
	badCall("ge7.HandlePropfind")
	return nil
}

func (x *ge7) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "ge7.HandleNotAllowedMethod", w, r, a)
}

type ge8 struct {
	gi11
	implIface
	HandleB2   int
	HandlePost int
	c          *implCore
}

func (x *ge8) HandlePut(w http.ResponseWriter, r http.Request, a *nm.Args) bool {
	badCall("ge8.HandlePut")
	return false
}

func (x ge8) HandleNotAllowedMethod(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("ge8.HandleNotAllowedMethod")
	return false
}

type ge9 struct {
	*ge6
	HandleShare int
	HandleLock  int
	c           *implCore
}

func (x *ge9) HandleB2(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "ge9.HandleB2", w, r, a)
}

func (x ge9) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("ge9.HandleOptions")
	return
}

func (x *ge9) HandleX(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "ge9.HandleX", w, r, a)
}

type ge10 struct {
	*gi44
	implIface
	c *implCore
}

func (x *ge10) HandleZ(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "ge10.HandleZ", w, r, a)
}

func (x ge10) HandleHead(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "ge10.HandleHead", w, r, a)
}

type ge11 struct {
	*gi63
	c *implCore
}

func (x ge11) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "ge11.HandlePost", w, r, a)
}

type ge12 struct {
	*ge8
	ge3
	HandlePost  int
	HandleShare int
	c           *implCore
}

func (x ge12) HandlePropfind(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("ge12.HandlePropfind")
	return false
}

func (x *ge12) HandleTrace(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "ge12.HandleTrace", w, r, a)
}

type ge13 struct {
	ge3
	HandleX     int
	HandleTrace int
	c           *implCore
}

func (x *ge13) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a nm.Args) bool {
	badCall("ge13.HandleNotAllowedMethod")
	return false
}

func (x *ge13) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "ge13.HandleOptions", w, r, a)
}

type ge14 struct {
	gi37
	implIface
	HandleDelete int
	c            *implCore
}

type ge15 struct {
	gi8
	implIface
	c *implCore
}

func (x *ge15) HandleMSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "ge15.HandleMSearch", w, r, a)
}

func (x ge15) HandleB2(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "ge15.HandleB2", w, r, a)
}

func (x *ge15) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "ge15.HandleGet", w, r, a)
}

func (x *ge15) HandleLock(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "ge15.HandleLock", w, r, a)
}

func (x ge15) HandlePropfind() nm.Handler {
	badCall("ge15.HandlePropfind")
	return nil
}

func (x ge15) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("ge15.HandleDelete")
	return false
}

type ge16 struct {
	ge0
	HandleGet     int
	HandleOptions int
	c             *implCore
}

func (x ge16) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args, y int) bool {
	badCall("ge16.HandleNotAllowedMethod")
	return false
}

func (x *ge16) HandlePatch(w rwNamed, r *http.Request, a *nm.Args) bool {
	badCall("ge16.HandlePatch")
	return false
}

type ge17 struct {
	gi51
	c *implCore
}

type ge18 struct {
	gi17
	gi20
	*ge9
	implIface
	c *implCore
}

type ge19 struct {
	gi35
	*ge2
	implIface
	c *implCore
}

type ge20 struct {
	*gi69
	c *implCore
}

func (x ge20) HandleDelete(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(nil, x.c, "ge20.HandleDelete", w, r, a)
}

func (x *ge20) HandleShare(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("ge20.HandleShare")
	return false
}

type ge21 struct {
	gi60
	ge7
	HandleTrace int
	HandleX     int
	c           *implCore
}

func (x ge21) HandleZ(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "ge21.HandleZ", w, r, a)
}

type ge22 struct {
	*gi50
	c *implCore
}

func (x ge22) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("ge22.HandleNotAllowedMethod")
	return false
}

func (x *ge22) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "ge22.HandleOptions", w, r, a)
}

type ge23 struct {
	*gi37
	c *implCore
}

func (x *ge23) HandlePost(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("ge23.HandlePost")
	return false
}

type ge24 struct {
	*gi34
	ge2
	gi44
	implIface
	HandlePost   int
	HandleUnlock int
	c            *implCore
}

func (x *ge24) HandleMkcol(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "ge24.HandleMkcol", w, r, a)
}

type ge25 struct {
	ge16
	*gi58
	c *implCore
}

type ge26 struct {
	gi6
	ge3
	*gi11
	c *implCore
}

func (x ge26) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("ge26.HandleTrace")
	return false, nil
}

type ge27 struct {
	ge25
	c *implCore
}

type ge28 struct {
	gi33
	ge5
	ge22
	c *implCore
}

type ge29 struct {
	*gi6
	implIface
	c *implCore
}

type ge30 struct {
	ge28
	gi36
	*ge13
	HandleHead int
	c          *implCore
}

func (x *ge30) HandleX(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "ge30.HandleX", w, r, a)
}

func (x *ge30) HandleTrace(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "ge30.HandleTrace", w, r, a)
}

func (x ge30) HandleLock(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("ge30.HandleLock")
	return false
}

type ge31 struct {
	ge21
	HandleGet int
	c         *implCore
}

type ge32 struct {
	ge18
	implIface
	c *implCore
}

type ge33 struct {
	*ge20
	implIface
	HandleX int
	c       *implCore
}

type ge34 struct {
	*ge10
	c *implCore
}

func (x *ge34) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("ge34.HandleNotAllowedMethod")
	return false
}

func (x ge34) HandleX(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "ge34.HandleX", w, r, a)
}

func (x ge34) HandleMkcol(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "ge34.HandleMkcol", w, r, a)
}

func (x *ge34) HandleLock(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("ge34.HandleLock")
	return false
}

func (x *ge34) HandleB2(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("ge34.HandleB2")
	return false
}

func (x ge34) HandleShare(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(nil, x.c, "ge34.HandleShare", w, r, a)
}

type ge35 struct {
	*gi37
	*ge7
	c *implCore
}

func (x *ge35) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "ge35.HandleNotAllowedMethod", w, r, a)
}

type ge36 struct {
	gi14
	gi7
	gi65
	c *implCore
}

type ge37 struct {
	ge13
	HandlePatch int
	HandleHead  int
	c           *implCore
}

func (x *ge37) HandlePropfind(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "ge37.HandlePropfind", w, r, a)
}

func (x ge37) HandleConnect(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("ge37.HandleConnect")
	return false
}

type ge38 struct {
	*ge28
	*ge1
	*gi63
	HandleTrace int
	HandleHead  int
	c           *implCore
}

type ge39 struct {
	*gi5
	c *implCore
}

type ge40 struct {
	*ge20
	HandlePost int
	c          *implCore
}

type ge41 struct {
	ge14
	implIface
	HandlePost int
	HandleX    int
	c          *implCore
}

func (x *ge41) HandleTrace(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "ge41.HandleTrace", w, r, a)
}

type ge42 struct {
	*ge38
	gi2
	implIface
	HandlePatch int
	c           *implCore
}

func (x ge42) HandleMSearch(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "ge42.HandleMSearch", w, r, a)
}

func (x ge42) HandlePut() nm.Handler {
	badCall("ge42.HandlePut")
	return nil
}

func (x *ge42) HandleLock(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "ge42.HandleLock", w, r, a)
}

func (x ge42) HandleX(w http.ResponseWriter, r *http.Request, a *nm.Args) {
	badCall("ge42.HandleX")
	return
}

func (x ge42) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error) {
	badCall("ge42.HandleOptions")
	return false, nil
}

type ge43 struct {
	*ge37
	implIface
	HandleLock int
	c          *implCore
}

func (x ge43) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("ge43.HandleNotAllowedMethod")
	return false
}

func (x ge43) HandleShare() {
	badCall("ge43.HandleShare")
	return
}

func (x *ge43) HandleX(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "ge43.HandleX", w, r, a)
}

func (x ge43) HandleMkcol(w http.ResponseWriter, r *http.Request, a ...*nm.Args) bool {
	badCall("ge43.HandleMkcol")
	return false
}

func (x ge43) HandlePut(w http.ResponseWriter, r *http.Request, a any) bool {
	badCall("ge43.HandlePut")
	return false
}

type ge44 struct {
	*ge35
	*ge20
	ge0
	c *implCore
}

type ge45 struct {
	ge5
	*gi37
	ge11
	implIface
	c *implCore
}

type ge46 struct {
	gi39
	implIface
	c *implCore
}

type ge47 struct {
	ge31
	HandlePut int
	HandleGet int
	c         *implCore
}

func (x ge47) HandleDelete() nm.Handler {
	badCall("ge47.HandleDelete")
	return nil
}

type ge48 struct {
	gi58
	implIface
	HandleUnlock int
	c            *implCore
}

func (x ge48) HandleB2(w http.ResponseWriter, r *http.Request, a *nm.Args) int {
	badCall("ge48.HandleB2")
	return 0
}

func (x *ge48) HandleOptions(w http.ResponseWriter, r *http.Request) bool {
	badCall("ge48.HandleOptions")
	return false
}

type ge49 struct {
	*gi50
	gi37
	ge22
	implIface
	c *implCore
}

type ge50 struct {
	gi11
	implIface
	c *implCore
}

type ge51 struct {
	*gi2
	HandlePut int
	c         *implCore
}

func (x *ge51) HandleOptions(w http.ResponseWriter, r *http.Request, a *nm.Args) (handled bool) {
	return implCall(x, (*x).c, "ge51.HandleOptions", w, r, a)
}

func (x *ge51) HandleDelete(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(x, (*x).c, "ge51.HandleDelete", w, r, a)
}

type ge52 struct {
	*gi55
	ge10
	HandleA     int
	HandlePatch int
	c           *implCore
}

type ge53 struct {
	*ge44
	ge10
	ge27
	c *implCore
}

type ge54 struct {
	ge40
	c *implCore
}

type ge55 struct {
	ge54
	c *implCore
}

func (x *ge55) HandleMSearch(w rwAlias, r *http.Request, a *argsAlias) bool {
	return implCall(x, (*x).c, "ge55.HandleMSearch", w, r, a)
}

func (x ge55) HandleLock(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	return implCall(nil, x.c, "ge55.HandleLock", w, r, a)
}

type ge56 struct {
	ge34
	implIface
	HandleDelete int
	c            *implCore
}

type ge57 struct {
	*gi61
	*gi36
	ge12
	implIface
	c *implCore
}

type ge58 struct {
	ge36
	implIface
	HandlePatch int
	c           *implCore
}

func (x *ge58) HandleConnect(w http.ResponseWriter, r *http.Request, a *nm.Args) myBool {
	badCall("ge58.HandleConnect")
	return false
}

type ge59 struct {
	*ge45
	HandlePatch int
	HandleGet   int
	c           *implCore
}

var genTypes = []genType{
	{"gi0", func(c *implCore) any { return gi0(c.n) },
		func(c *implCore) any { return ptrTo(gi0(c.n)) }},
	{"gi1", func(c *implCore) any { return gi1(c.n) },
		func(c *implCore) any { return ptrTo(gi1(c.n)) }},
	{"gi2", func(c *implCore) any { return gi2{c: c} },
		func(c *implCore) any { return &gi2{c: c} }},
	{"gi3", func(c *implCore) any { return gi3{c: c} },
		func(c *implCore) any { return &gi3{c: c} }},
	{"gi4", func(c *implCore) any { return gi4{c: c} },
		func(c *implCore) any { return &gi4{c: c} }},
	{"gi5", func(c *implCore) any { return gi5{c: c} },
		func(c *implCore) any { return &gi5{c: c} }},
	{"gi6", func(c *implCore) any { return gi6{c: c} },
		func(c *implCore) any { return &gi6{c: c} }},
	{"gi7", func(c *implCore) any { return gi7{c: c} },
		func(c *implCore) any { return &gi7{c: c} }},
	{"gi8", func(c *implCore) any { return gi8{c: c} },
		func(c *implCore) any { return &gi8{c: c} }},
	{"gi9", func(c *implCore) any { return gi9{c} },
		func(c *implCore) any { return &gi9{c} }},
	{"gi10", func(c *implCore) any { return gi10{c: c} },
		func(c *implCore) any { return &gi10{c: c} }},
	{"gi11", func(c *implCore) any { return gi11{c: c} },
		func(c *implCore) any { return &gi11{c: c} }},
	{"gi12", func(c *implCore) any { return gi12[int]{c: c} },
		func(c *implCore) any { return &gi12[string]{c: c} }},
	{"gi13", func(c *implCore) any { return gi13{c: c} },
		func(c *implCore) any { return &gi13{c: c} }},
	{"gi14", func(c *implCore) any { return gi14{c: c} },
		func(c *implCore) any { return &gi14{c: c} }},
	{"gi15", func(c *implCore) any { return gi15{"c": c} },
		func(c *implCore) any { return &gi15{"c": c} }},
	{"gi16", func(c *implCore) any { return gi16{"c": c} },
		func(c *implCore) any { return &gi16{"c": c} }},
	{"gi17", func(c *implCore) any { return gi17{c: c} },
		func(c *implCore) any { return &gi17{c: c} }},
	{"gi18", func(c *implCore) any { return gi18{"c": c} },
		func(c *implCore) any { return &gi18{"c": c} }},
	{"gi19", func(c *implCore) any { return gi19[int]{c: c} },
		func(c *implCore) any { return &gi19[string]{c: c} }},
	{"gi20", func(c *implCore) any { return gi20{c: c} },
		func(c *implCore) any { return &gi20{c: c} }},
	{"gi21", func(c *implCore) any { return gi21(func() *implCore { return c }) },
		func(c *implCore) any { return ptrTo(gi21(func() *implCore { return c })) }},
	{"gi22", func(c *implCore) any { return gi22{c: c} },
		func(c *implCore) any { return &gi22{c: c} }},
	{"gi23", func(c *implCore) any { return gi23{c: c} },
		func(c *implCore) any { return &gi23{c: c} }},
	{"gi24", func(c *implCore) any { return gi24{c: c} },
		func(c *implCore) any { return &gi24{c: c} }},
	{"gi25", func(c *implCore) any { return gi25{c} },
		func(c *implCore) any { return &gi25{c} }},
	{"gi26", func(c *implCore) any { return gi26{c: c} },
		func(c *implCore) any { return &gi26{c: c} }},
	{"gi27", func(c *implCore) any { return gi27{c} },
		func(c *implCore) any { return &gi27{c} }},
	{"gi28", func(c *implCore) any { return gi28{c: c} },
		func(c *implCore) any { return &gi28{c: c} }},
	{"gi29", func(c *implCore) any { return gi29{"c": c} },
		func(c *implCore) any { return &gi29{"c": c} }},
	{"gi30", func(c *implCore) any { return gi30[int]{c: c} },
		func(c *implCore) any { return &gi30[string]{c: c} }},
	{"gi31", func(c *implCore) any { return gi31{"c": c} },
		func(c *implCore) any { return &gi31{"c": c} }},
	{"gi32", func(c *implCore) any { return gi32(func() *implCore { return c }) },
		func(c *implCore) any { return ptrTo(gi32(func() *implCore { return c })) }},
	{"gi33", func(c *implCore) any { return gi33{c: c} },
		func(c *implCore) any { return &gi33{c: c} }},
	{"gi34", func(c *implCore) any { return gi34{c: c} },
		func(c *implCore) any { return &gi34{c: c} }},
	{"gi35", func(c *implCore) any { return gi35{c: c} },
		func(c *implCore) any { return &gi35{c: c} }},
	{"gi36", func(c *implCore) any { return gi36{c: c} },
		func(c *implCore) any { return &gi36{c: c} }},
	{"gi37", func(c *implCore) any { return gi37{c: c} },
		func(c *implCore) any { return &gi37{c: c} }},
	{"gi38", func(c *implCore) any { return gi38{c: c} },
		func(c *implCore) any { return &gi38{c: c} }},
	{"gi39", func(c *implCore) any { return gi39{c: c} },
		func(c *implCore) any { return &gi39{c: c} }},
	{"gi40", func(c *implCore) any { return gi40(c.n) },
		func(c *implCore) any { return ptrTo(gi40(c.n)) }},
	{"gi41", func(c *implCore) any { return gi41{c} },
		func(c *implCore) any { return &gi41{c} }},
	{"gi42", func(c *implCore) any { return gi42(c.n) },
		func(c *implCore) any { return ptrTo(gi42(c.n)) }},
	{"gi43", func(c *implCore) any { return gi43[int]{c: c} },
		func(c *implCore) any { return &gi43[string]{c: c} }},
	{"gi44", func(c *implCore) any { return gi44{c: c} },
		func(c *implCore) any { return &gi44{c: c} }},
	{"gi45", func(c *implCore) any { return gi45{c} },
		func(c *implCore) any { return &gi45{c} }},
	{"gi46", func(c *implCore) any { return gi46(func() *implCore { return c }) },
		func(c *implCore) any { return ptrTo(gi46(func() *implCore { return c })) }},
	{"gi47", func(c *implCore) any { return gi47{c} },
		func(c *implCore) any { return &gi47{c} }},
	{"gi48", func(c *implCore) any { return gi48[int]{c: c} },
		func(c *implCore) any { return &gi48[string]{c: c} }},
	{"gi49", func(c *implCore) any { return gi49{c: c} },
		func(c *implCore) any { return &gi49{c: c} }},
	{"gi50", func(c *implCore) any { return gi50{c: c} },
		func(c *implCore) any { return &gi50{c: c} }},
	{"gi51", func(c *implCore) any { return gi51{c: c} },
		func(c *implCore) any { return &gi51{c: c} }},
	{"gi52", func(c *implCore) any { return gi52{"c": c} },
		func(c *implCore) any { return &gi52{"c": c} }},
	{"gi53", func(c *implCore) any { return gi53(func() *implCore { return c }) },
		func(c *implCore) any { return ptrTo(gi53(func() *implCore { return c })) }},
	{"gi54", func(c *implCore) any { return gi54{"c": c} },
		func(c *implCore) any { return &gi54{"c": c} }},
	{"gi55", func(c *implCore) any { return gi55{c: c} },
		func(c *implCore) any { return &gi55{c: c} }},
	{"gi56", func(c *implCore) any { return gi56{c: c} },
		func(c *implCore) any { return &gi56{c: c} }},
	{"gi57", func(c *implCore) any { return gi57{c: c} },
		func(c *implCore) any { return &gi57{c: c} }},
	{"gi58", func(c *implCore) any { return gi58{c: c} },
		func(c *implCore) any { return &gi58{c: c} }},
	{"gi59", func(c *implCore) any { return gi59(func() *implCore { return c }) },
		func(c *implCore) any { return ptrTo(gi59(func() *implCore { return c })) }},
	{"gi60", func(c *implCore) any { return gi60{c: c} },
		func(c *implCore) any { return &gi60{c: c} }},
	{"gi61", func(c *implCore) any { return gi61{c: c} },
		func(c *implCore) any { return &gi61{c: c} }},
	{"gi62", func(c *implCore) any { return gi62(c.n) },
		func(c *implCore) any { return ptrTo(gi62(c.n)) }},
	{"gi63", func(c *implCore) any { return gi63{c: c} },
		func(c *implCore) any { return &gi63{c: c} }},
	{"gi64", func(c *implCore) any { return gi64{"c": c} },
		func(c *implCore) any { return &gi64{"c": c} }},
	{"gi65", func(c *implCore) any { return gi65{c: c} },
		func(c *implCore) any { return &gi65{c: c} }},
	{"gi66", func(c *implCore) any { return gi66{c: c} },
		func(c *implCore) any { return &gi66{c: c} }},
	{"gi67", func(c *implCore) any { return gi67[int]{c: c} },
		func(c *implCore) any { return &gi67[string]{c: c} }},
	{"gi68", func(c *implCore) any { return gi68{c} },
		func(c *implCore) any { return &gi68{c} }},
	{"gi69", func(c *implCore) any { return gi69{c: c} },
		func(c *implCore) any { return &gi69{c: c} }},
	{"ge0", func(c *implCore) any { return ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c} },
		func(c *implCore) any { return &ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c} }},
	{"ge1", func(c *implCore) any { return ge1{gi23{c: c}, &gi38{c: c}, &ifaceImpl{c: c}, 0, c} },
		func(c *implCore) any { return &ge1{gi23{c: c}, &gi38{c: c}, &ifaceImpl{c: c}, 0, c} }},
	{"ge2", func(c *implCore) any { return ge2{&gi61{c: c}, gi33{c: c}, c} },
		func(c *implCore) any { return &ge2{&gi61{c: c}, gi33{c: c}, c} }},
	{"ge3", func(c *implCore) any { return ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c} },
		func(c *implCore) any { return &ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c} }},
	{"ge4", func(c *implCore) any {
		return ge4{ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &ifaceImpl{c: c}, 0, c}
	},
		func(c *implCore) any {
			return &ge4{ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &ifaceImpl{c: c}, 0, c}
		}},
	{"ge5", func(c *implCore) any { return ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c} },
		func(c *implCore) any { return &ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c} }},
	{"ge6", func(c *implCore) any { return ge6{&gi51{c: c}, c} },
		func(c *implCore) any { return &ge6{&gi51{c: c}, c} }},
	{"ge7", func(c *implCore) any { return ge7{&gi11{c: c}, &gi58{c: c}, c} },
		func(c *implCore) any { return &ge7{&gi11{c: c}, &gi58{c: c}, c} }},
	{"ge8", func(c *implCore) any { return ge8{gi11{c: c}, &ifaceImpl{c: c}, 0, 0, c} },
		func(c *implCore) any { return &ge8{gi11{c: c}, &ifaceImpl{c: c}, 0, 0, c} }},
	{"ge9", func(c *implCore) any { return ge9{&ge6{&gi51{c: c}, c}, 0, 0, c} },
		func(c *implCore) any { return &ge9{&ge6{&gi51{c: c}, c}, 0, 0, c} }},
	{"ge10", func(c *implCore) any { return ge10{&gi44{c: c}, &ifaceImpl{c: c}, c} },
		func(c *implCore) any { return &ge10{&gi44{c: c}, &ifaceImpl{c: c}, c} }},
	{"ge11", func(c *implCore) any { return ge11{&gi63{c: c}, c} },
		func(c *implCore) any { return &ge11{&gi63{c: c}, c} }},
	{"ge12", func(c *implCore) any {
		return ge12{&ge8{gi11{c: c}, &ifaceImpl{c: c}, 0, 0, c}, ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c}
	},
		func(c *implCore) any {
			return &ge12{&ge8{gi11{c: c}, &ifaceImpl{c: c}, 0, 0, c}, ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c}
		}},
	{"ge13", func(c *implCore) any { return ge13{ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c} },
		func(c *implCore) any { return &ge13{ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c} }},
	{"ge14", func(c *implCore) any { return ge14{gi37{c: c}, &ifaceImpl{c: c}, 0, c} },
		func(c *implCore) any { return &ge14{gi37{c: c}, &ifaceImpl{c: c}, 0, c} }},
	{"ge15", func(c *implCore) any { return ge15{gi8{c: c}, &ifaceImpl{c: c}, c} },
		func(c *implCore) any { return &ge15{gi8{c: c}, &ifaceImpl{c: c}, c} }},
	{"ge16", func(c *implCore) any { return ge16{ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, 0, 0, c} },
		func(c *implCore) any { return &ge16{ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, 0, 0, c} }},
	{"ge17", func(c *implCore) any { return ge17{gi51{c: c}, c} },
		func(c *implCore) any { return &ge17{gi51{c: c}, c} }},
	{"ge18", func(c *implCore) any {
		return ge18{gi17{c: c}, gi20{c: c}, &ge9{&ge6{&gi51{c: c}, c}, 0, 0, c}, &ifaceImpl{c: c}, c}
	},
		func(c *implCore) any {
			return &ge18{gi17{c: c}, gi20{c: c}, &ge9{&ge6{&gi51{c: c}, c}, 0, 0, c}, &ifaceImpl{c: c}, c}
		}},
	{"ge19", func(c *implCore) any { return ge19{gi35{c: c}, &ge2{&gi61{c: c}, gi33{c: c}, c}, &ifaceImpl{c: c}, c} },
		func(c *implCore) any { return &ge19{gi35{c: c}, &ge2{&gi61{c: c}, gi33{c: c}, c}, &ifaceImpl{c: c}, c} }},
	{"ge20", func(c *implCore) any { return ge20{&gi69{c: c}, c} },
		func(c *implCore) any { return &ge20{&gi69{c: c}, c} }},
	{"ge21", func(c *implCore) any { return ge21{gi60{c: c}, ge7{&gi11{c: c}, &gi58{c: c}, c}, 0, 0, c} },
		func(c *implCore) any { return &ge21{gi60{c: c}, ge7{&gi11{c: c}, &gi58{c: c}, c}, 0, 0, c} }},
	{"ge22", func(c *implCore) any { return ge22{&gi50{c: c}, c} },
		func(c *implCore) any { return &ge22{&gi50{c: c}, c} }},
	{"ge23", func(c *implCore) any { return ge23{&gi37{c: c}, c} },
		func(c *implCore) any { return &ge23{&gi37{c: c}, c} }},
	{"ge24", func(c *implCore) any {
		return ge24{&gi34{c: c}, ge2{&gi61{c: c}, gi33{c: c}, c}, gi44{c: c}, &ifaceImpl{c: c}, 0, 0, c}
	},
		func(c *implCore) any {
			return &ge24{&gi34{c: c}, ge2{&gi61{c: c}, gi33{c: c}, c}, gi44{c: c}, &ifaceImpl{c: c}, 0, 0, c}
		}},
	{"ge25", func(c *implCore) any {
		return ge25{ge16{ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, 0, 0, c}, &gi58{c: c}, c}
	},
		func(c *implCore) any {
			return &ge25{ge16{ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, 0, 0, c}, &gi58{c: c}, c}
		}},
	{"ge26", func(c *implCore) any {
		return ge26{gi6{c: c}, ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi11{c: c}, c}
	},
		func(c *implCore) any {
			return &ge26{gi6{c: c}, ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi11{c: c}, c}
		}},
	{"ge27", func(c *implCore) any {
		return ge27{ge25{ge16{ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, 0, 0, c}, &gi58{c: c}, c}, c}
	},
		func(c *implCore) any {
			return &ge27{ge25{ge16{ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, 0, 0, c}, &gi58{c: c}, c}, c}
		}},
	{"ge28", func(c *implCore) any {
		return ge28{gi33{c: c}, ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, ge22{&gi50{c: c}, c}, c}
	},
		func(c *implCore) any {
			return &ge28{gi33{c: c}, ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, ge22{&gi50{c: c}, c}, c}
		}},
	{"ge29", func(c *implCore) any { return ge29{&gi6{c: c}, &ifaceImpl{c: c}, c} },
		func(c *implCore) any { return &ge29{&gi6{c: c}, &ifaceImpl{c: c}, c} }},
	{"ge30", func(c *implCore) any {
		return ge30{ge28{gi33{c: c}, ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, ge22{&gi50{c: c}, c}, c}, gi36{c: c}, &ge13{ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c}, 0, c}
	},
		func(c *implCore) any {
			return &ge30{ge28{gi33{c: c}, ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, ge22{&gi50{c: c}, c}, c}, gi36{c: c}, &ge13{ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c}, 0, c}
		}},
	{"ge31", func(c *implCore) any { return ge31{ge21{gi60{c: c}, ge7{&gi11{c: c}, &gi58{c: c}, c}, 0, 0, c}, 0, c} },
		func(c *implCore) any { return &ge31{ge21{gi60{c: c}, ge7{&gi11{c: c}, &gi58{c: c}, c}, 0, 0, c}, 0, c} }},
	{"ge32", func(c *implCore) any {
		return ge32{ge18{gi17{c: c}, gi20{c: c}, &ge9{&ge6{&gi51{c: c}, c}, 0, 0, c}, &ifaceImpl{c: c}, c}, &ifaceImpl{c: c}, c}
	},
		func(c *implCore) any {
			return &ge32{ge18{gi17{c: c}, gi20{c: c}, &ge9{&ge6{&gi51{c: c}, c}, 0, 0, c}, &ifaceImpl{c: c}, c}, &ifaceImpl{c: c}, c}
		}},
	{"ge33", func(c *implCore) any { return ge33{&ge20{&gi69{c: c}, c}, &ifaceImpl{c: c}, 0, c} },
		func(c *implCore) any { return &ge33{&ge20{&gi69{c: c}, c}, &ifaceImpl{c: c}, 0, c} }},
	{"ge34", func(c *implCore) any { return ge34{&ge10{&gi44{c: c}, &ifaceImpl{c: c}, c}, c} },
		func(c *implCore) any { return &ge34{&ge10{&gi44{c: c}, &ifaceImpl{c: c}, c}, c} }},
	{"ge35", func(c *implCore) any { return ge35{&gi37{c: c}, &ge7{&gi11{c: c}, &gi58{c: c}, c}, c} },
		func(c *implCore) any { return &ge35{&gi37{c: c}, &ge7{&gi11{c: c}, &gi58{c: c}, c}, c} }},
	{"ge36", func(c *implCore) any { return ge36{gi14{c: c}, gi7{c: c}, gi65{c: c}, c} },
		func(c *implCore) any { return &ge36{gi14{c: c}, gi7{c: c}, gi65{c: c}, c} }},
	{"ge37", func(c *implCore) any {
		return ge37{ge13{ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c}, 0, 0, c}
	},
		func(c *implCore) any {
			return &ge37{ge13{ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c}, 0, 0, c}
		}},
	{"ge38", func(c *implCore) any {
		return ge38{&ge28{gi33{c: c}, ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, ge22{&gi50{c: c}, c}, c}, &ge1{gi23{c: c}, &gi38{c: c}, &ifaceImpl{c: c}, 0, c}, &gi63{c: c}, 0, 0, c}
	},
		func(c *implCore) any {
			return &ge38{&ge28{gi33{c: c}, ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, ge22{&gi50{c: c}, c}, c}, &ge1{gi23{c: c}, &gi38{c: c}, &ifaceImpl{c: c}, 0, c}, &gi63{c: c}, 0, 0, c}
		}},
	{"ge39", func(c *implCore) any { return ge39{&gi5{c: c}, c} },
		func(c *implCore) any { return &ge39{&gi5{c: c}, c} }},
	{"ge40", func(c *implCore) any { return ge40{&ge20{&gi69{c: c}, c}, 0, c} },
		func(c *implCore) any { return &ge40{&ge20{&gi69{c: c}, c}, 0, c} }},
	{"ge41", func(c *implCore) any {
		return ge41{ge14{gi37{c: c}, &ifaceImpl{c: c}, 0, c}, &ifaceImpl{c: c}, 0, 0, c}
	},
		func(c *implCore) any {
			return &ge41{ge14{gi37{c: c}, &ifaceImpl{c: c}, 0, c}, &ifaceImpl{c: c}, 0, 0, c}
		}},
	{"ge42", func(c *implCore) any {
		return ge42{&ge38{&ge28{gi33{c: c}, ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, ge22{&gi50{c: c}, c}, c}, &ge1{gi23{c: c}, &gi38{c: c}, &ifaceImpl{c: c}, 0, c}, &gi63{c: c}, 0, 0, c}, gi2{c: c}, &ifaceImpl{c: c}, 0, c}
	},
		func(c *implCore) any {
			return &ge42{&ge38{&ge28{gi33{c: c}, ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, ge22{&gi50{c: c}, c}, c}, &ge1{gi23{c: c}, &gi38{c: c}, &ifaceImpl{c: c}, 0, c}, &gi63{c: c}, 0, 0, c}, gi2{c: c}, &ifaceImpl{c: c}, 0, c}
		}},
	{"ge43", func(c *implCore) any {
		return ge43{&ge37{ge13{ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c}, 0, 0, c}, &ifaceImpl{c: c}, 0, c}
	},
		func(c *implCore) any {
			return &ge43{&ge37{ge13{ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c}, 0, 0, c}, &ifaceImpl{c: c}, 0, c}
		}},
	{"ge44", func(c *implCore) any {
		return ge44{&ge35{&gi37{c: c}, &ge7{&gi11{c: c}, &gi58{c: c}, c}, c}, &ge20{&gi69{c: c}, c}, ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, c}
	},
		func(c *implCore) any {
			return &ge44{&ge35{&gi37{c: c}, &ge7{&gi11{c: c}, &gi58{c: c}, c}, c}, &ge20{&gi69{c: c}, c}, ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, c}
		}},
	{"ge45", func(c *implCore) any {
		return ge45{ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, &gi37{c: c}, ge11{&gi63{c: c}, c}, &ifaceImpl{c: c}, c}
	},
		func(c *implCore) any {
			return &ge45{ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, &gi37{c: c}, ge11{&gi63{c: c}, c}, &ifaceImpl{c: c}, c}
		}},
	{"ge46", func(c *implCore) any { return ge46{gi39{c: c}, &ifaceImpl{c: c}, c} },
		func(c *implCore) any { return &ge46{gi39{c: c}, &ifaceImpl{c: c}, c} }},
	{"ge47", func(c *implCore) any {
		return ge47{ge31{ge21{gi60{c: c}, ge7{&gi11{c: c}, &gi58{c: c}, c}, 0, 0, c}, 0, c}, 0, 0, c}
	},
		func(c *implCore) any {
			return &ge47{ge31{ge21{gi60{c: c}, ge7{&gi11{c: c}, &gi58{c: c}, c}, 0, 0, c}, 0, c}, 0, 0, c}
		}},
	{"ge48", func(c *implCore) any { return ge48{gi58{c: c}, &ifaceImpl{c: c}, 0, c} },
		func(c *implCore) any { return &ge48{gi58{c: c}, &ifaceImpl{c: c}, 0, c} }},
	{"ge49", func(c *implCore) any { return ge49{&gi50{c: c}, gi37{c: c}, ge22{&gi50{c: c}, c}, &ifaceImpl{c: c}, c} },
		func(c *implCore) any {
			return &ge49{&gi50{c: c}, gi37{c: c}, ge22{&gi50{c: c}, c}, &ifaceImpl{c: c}, c}
		}},
	{"ge50", func(c *implCore) any { return ge50{gi11{c: c}, &ifaceImpl{c: c}, c} },
		func(c *implCore) any { return &ge50{gi11{c: c}, &ifaceImpl{c: c}, c} }},
	{"ge51", func(c *implCore) any { return ge51{&gi2{c: c}, 0, c} },
		func(c *implCore) any { return &ge51{&gi2{c: c}, 0, c} }},
	{"ge52", func(c *implCore) any { return ge52{&gi55{c: c}, ge10{&gi44{c: c}, &ifaceImpl{c: c}, c}, 0, 0, c} },
		func(c *implCore) any { return &ge52{&gi55{c: c}, ge10{&gi44{c: c}, &ifaceImpl{c: c}, c}, 0, 0, c} }},
	{"ge53", func(c *implCore) any {
		return ge53{&ge44{&ge35{&gi37{c: c}, &ge7{&gi11{c: c}, &gi58{c: c}, c}, c}, &ge20{&gi69{c: c}, c}, ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, c}, ge10{&gi44{c: c}, &ifaceImpl{c: c}, c}, ge27{ge25{ge16{ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, 0, 0, c}, &gi58{c: c}, c}, c}, c}
	},
		func(c *implCore) any {
			return &ge53{&ge44{&ge35{&gi37{c: c}, &ge7{&gi11{c: c}, &gi58{c: c}, c}, c}, &ge20{&gi69{c: c}, c}, ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, c}, ge10{&gi44{c: c}, &ifaceImpl{c: c}, c}, ge27{ge25{ge16{ge0{&gi2{c: c}, &gi35{c: c}, gi55{c: c}, c}, 0, 0, c}, &gi58{c: c}, c}, c}, c}
		}},
	{"ge54", func(c *implCore) any { return ge54{ge40{&ge20{&gi69{c: c}, c}, 0, c}, c} },
		func(c *implCore) any { return &ge54{ge40{&ge20{&gi69{c: c}, c}, 0, c}, c} }},
	{"ge55", func(c *implCore) any { return ge55{ge54{ge40{&ge20{&gi69{c: c}, c}, 0, c}, c}, c} },
		func(c *implCore) any { return &ge55{ge54{ge40{&ge20{&gi69{c: c}, c}, 0, c}, c}, c} }},
	{"ge56", func(c *implCore) any {
		return ge56{ge34{&ge10{&gi44{c: c}, &ifaceImpl{c: c}, c}, c}, &ifaceImpl{c: c}, 0, c}
	},
		func(c *implCore) any {
			return &ge56{ge34{&ge10{&gi44{c: c}, &ifaceImpl{c: c}, c}, c}, &ifaceImpl{c: c}, 0, c}
		}},
	{"ge57", func(c *implCore) any {
		return ge57{&gi61{c: c}, &gi36{c: c}, ge12{&ge8{gi11{c: c}, &ifaceImpl{c: c}, 0, 0, c}, ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c}, &ifaceImpl{c: c}, c}
	},
		func(c *implCore) any {
			return &ge57{&gi61{c: c}, &gi36{c: c}, ge12{&ge8{gi11{c: c}, &ifaceImpl{c: c}, 0, 0, c}, ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, 0, 0, c}, &ifaceImpl{c: c}, c}
		}},
	{"ge58", func(c *implCore) any { return ge58{ge36{gi14{c: c}, gi7{c: c}, gi65{c: c}, c}, &ifaceImpl{c: c}, 0, c} },
		func(c *implCore) any {
			return &ge58{ge36{gi14{c: c}, gi7{c: c}, gi65{c: c}, c}, &ifaceImpl{c: c}, 0, c}
		}},
	{"ge59", func(c *implCore) any {
		return ge59{&ge45{ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, &gi37{c: c}, ge11{&gi63{c: c}, c}, &ifaceImpl{c: c}, c}, 0, 0, c}
	},
		func(c *implCore) any {
			return &ge59{&ge45{ge5{&ge3{gi57{c: c}, gi38{c: c}, &gi65{c: c}, 0, c}, &gi13{c: c}, 0, c}, &gi37{c: c}, ge11{&gi63{c: c}, c}, &ifaceImpl{c: c}, c}, 0, 0, c}
		}},
}

// genMethods tell whether a value has a method with the signature of handlers.
var genMethods = []genMethod{
	{"HandleA", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleA(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleA
		}
		return nil
	}},
	{"HandleAcl", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleAcl(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleAcl
		}
		return nil
	}},
	{"HandleAll", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleAll(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleAll
		}
		return nil
	}},
	{"HandleAllowedMethod", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleAllowedMethod(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleAllowedMethod
		}
		return nil
	}},
	{"HandleAny", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleAny(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleAny
		}
		return nil
	}},
	{"HandleB2", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleB2(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleB2
		}
		return nil
	}},
	{"HandleBind", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleBind(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleBind
		}
		return nil
	}},
	{"HandleConnect", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleConnect(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleConnect
		}
		return nil
	}},
	{"HandleCopy", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleCopy(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleCopy
		}
		return nil
	}},
	{"HandleDELETE", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleDELETE(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleDELETE
		}
		return nil
	}},
	{"HandleDelete", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleDelete(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleDelete
		}
		return nil
	}},
	{"HandleError", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleError(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleError
		}
		return nil
	}},
	{"HandleFunc", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleFunc(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleFunc
		}
		return nil
	}},
	{"HandleGET", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleGET(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleGET
		}
		return nil
	}},
	{"HandleGe", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleGe(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleGe
		}
		return nil
	}},
	{"HandleGet", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleGet(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleGet
		}
		return nil
	}},
	{"HandleGet2", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleGet2(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleGet2
		}
		return nil
	}},
	{"HandleGetAll", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleGetAll(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleGetAll
		}
		return nil
	}},
	{"HandleGetX", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleGetX(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleGetX
		}
		return nil
	}},
	{"HandleHEAD", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleHEAD(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleHEAD
		}
		return nil
	}},
	{"HandleHandle", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleHandle(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleHandle
		}
		return nil
	}},
	{"HandleHandleGet", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleHandleGet(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleHandleGet
		}
		return nil
	}},
	{"HandleHead", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleHead(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleHead
		}
		return nil
	}},
	{"HandleIface", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleIface(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleIface
		}
		return nil
	}},
	{"HandleLabel", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleLabel(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleLabel
		}
		return nil
	}},
	{"HandleLink", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleLink(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleLink
		}
		return nil
	}},
	{"HandleLock", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleLock(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleLock
		}
		return nil
	}},
	{"HandleMSearch", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleMSearch(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleMSearch
		}
		return nil
	}},
	{"HandleMerge", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleMerge(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleMerge
		}
		return nil
	}},
	{"HandleMethod", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleMethod(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleMethod
		}
		return nil
	}},
	{"HandleMkcol", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleMkcol(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleMkcol
		}
		return nil
	}},
	{"HandleMove", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleMove(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleMove
		}
		return nil
	}},
	{"HandleNotAllowed", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleNotAllowed(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleNotAllowed
		}
		return nil
	}},
	{"HandleNotAllowedMethod", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleNotAllowedMethod(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleNotAllowedMethod
		}
		return nil
	}},
	{"HandleNotify", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleNotify(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleNotify
		}
		return nil
	}},
	{"HandleOPTIONS", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleOPTIONS(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleOPTIONS
		}
		return nil
	}},
	{"HandleOption", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleOption(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleOption
		}
		return nil
	}},
	{"HandleOptions", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleOptions(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleOptions
		}
		return nil
	}},
	{"HandleOptionss", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleOptionss(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleOptionss
		}
		return nil
	}},
	{"HandlePOST", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandlePOST(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandlePOST
		}
		return nil
	}},
	{"HandlePUT", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandlePUT(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandlePUT
		}
		return nil
	}},
	{"HandlePatch", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandlePatch(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandlePatch
		}
		return nil
	}},
	{"HandlePing", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandlePing(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandlePing
		}
		return nil
	}},
	{"HandlePost", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandlePost(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandlePost
		}
		return nil
	}},
	{"HandlePropfind", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandlePropfind(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandlePropfind
		}
		return nil
	}},
	{"HandlePurge", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandlePurge(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandlePurge
		}
		return nil
	}},
	{"HandlePut", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandlePut(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandlePut
		}
		return nil
	}},
	{"HandleQ1", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleQ1(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleQ1
		}
		return nil
	}},
	{"HandleQ2", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleQ2(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleQ2
		}
		return nil
	}},
	{"HandleQ3", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleQ3(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleQ3
		}
		return nil
	}},
	{"HandleQ4", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleQ4(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleQ4
		}
		return nil
	}},
	{"HandleQ5", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleQ5(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleQ5
		}
		return nil
	}},
	{"HandleQ6", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleQ6(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleQ6
		}
		return nil
	}},
	{"HandleQ7", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleQ7(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleQ7
		}
		return nil
	}},
	{"HandleQ8", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleQ8(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleQ8
		}
		return nil
	}},
	{"HandleQ9", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleQ9(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleQ9
		}
		return nil
	}},
	{"HandleReport", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleReport(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleReport
		}
		return nil
	}},
	{"HandleSearch", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleSearch(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleSearch
		}
		return nil
	}},
	{"HandleShare", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleShare(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleShare
		}
		return nil
	}},
	{"HandleSubscribe", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleSubscribe(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleSubscribe
		}
		return nil
	}},
	{"HandleTrace", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleTrace(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleTrace
		}
		return nil
	}},
	{"HandleUnlink", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleUnlink(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleUnlink
		}
		return nil
	}},
	{"HandleUnlock", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleUnlock(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleUnlock
		}
		return nil
	}},
	{"HandleX", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleX(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleX
		}
		return nil
	}},
	{"HandleZ", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleZ(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleZ
		}
		return nil
	}},
	{"HandleZz", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleZz(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleZz
		}
		return nil
	}},
	{"Handle_Low", func(v any) nm.Handler {
		if x, ok := v.(interface {
			Handle_Low(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.Handle_Low
		}
		return nil
	}},
	{"Handled", func(v any) nm.Handler {
		if x, ok := v.(interface {
			Handled(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.Handled
		}
		return nil
	}},
	{"Handledelete", func(v any) nm.Handler {
		if x, ok := v.(interface {
			Handledelete(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.Handledelete
		}
		return nil
	}},
	{"Handleget", func(v any) nm.Handler {
		if x, ok := v.(interface {
			Handleget(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.Handleget
		}
		return nil
	}},
	{"Handleoptions", func(v any) nm.Handler {
		if x, ok := v.(interface {
			Handleoptions(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.Handleoptions
		}
		return nil
	}},
	{"Handlepost", func(v any) nm.Handler {
		if x, ok := v.(interface {
			Handlepost(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.Handlepost
		}
		return nil
	}},
	{"Handleput", func(v any) nm.Handler {
		if x, ok := v.(interface {
			Handleput(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.Handleput
		}
		return nil
	}},
	{"Handler", func(v any) nm.Handler {
		if x, ok := v.(interface {
			Handler(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.Handler
		}
		return nil
	}},
	{"Handles", func(v any) nm.Handler {
		if x, ok := v.(interface {
			Handles(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.Handles
		}
		return nil
	}},
	{"HandleÑu", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleÑu(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleÑu
		}
		return nil
	}},
	{"HandleЖук", func(v any) nm.Handler {
		if x, ok := v.(interface {
			HandleЖук(http.ResponseWriter, *http.Request, *nm.Args) bool
		}); ok {
			return x.HandleЖук
		}
		return nil
	}},
}
