#!/usr/bin/env python3
"""The chart set. Every chart is small; together they cover nesting, orthogonality, history and declared reactions."""
from gen import Chart, State as S


def flat(**k):
    return Chart("flat", "A", [S("A"), S("B", full=True), S("C")], **k)


def nest(**k):
    return Chart("nest", "X", [
        S("X", inits=["X1"], full=True), S("X1", "X", inits=["X11"], iface=True), S("X11", "X1", full=True), S("X12", "X1"),
        S("X2", "X"), S("Y", inits=["Y1"]), S("Y1", "Y", full=True, iface=True)], **k)


def orth(**k):
    return Chart("orth", "P", [
        S("P", inits=["A", "C"], full=True), S("A", "P", 0), S("B", "P", 0, full=True),
        S("C", "P", 1, inits=["C1"], iface=True), S("C1", "C", full=True), S("C2", "C"), S("D", "P", 1), S("Q", full=True)], **k)


def orth3(**k):
    return Chart("orth3", "O", [
        S("O", inits=["P"]), S("P", "O", inits=["A", "B", "C"], full=True), S("A", "P", 0), S("A2", "P", 0),
        S("B", "P", 1, full=True), S("C", "P", 2), S("C2", "P", 2, full=True), S("R", "O")], **k)


def orthdeep(**k):
    return Chart("orthdeep", "P", [
        S("P", inits=["M0", "N"], full=True), S("M0", "P", 0, inits=["A", "B"], full=True), S("A", "M0", 0), S("B", "M0", 1), S("B2", "M0", 1),
        S("N", "P", 1, inits=["E"]), S("E", "N", full=True), S("F", "P", 1), S("K", "P", 0)], **k)


def hshallow(**k):
    return Chart("hshallow", "H", [
        S("H", inits=["A", "sh:C"], hist="shallow", full=True), S("A", "H", 0, inits=["A1"]), S("A1", "A"), S("A2", "A"),
        S("B", "H", 0), S("C", "H", 1), S("D", "H", 1), S("Q", full=True)], **k)


def hdeep(**k):
    return Chart("hdeep", "H", [
        S("H", inits=["dh:A", "C"], hist="deep", full=True), S("A", "H", 0, inits=["A1"]), S("A1", "A", inits=["A11"]), S("A11", "A1"), S("A12", "A1"),
        S("B", "H", 0), S("C", "H", 1), S("D", "H", 1), S("Q", full=True)], **k)


def hfull(**k):
    return Chart("hfull", "G", [
        S("G", inits=["H"], hist="full", full=True), S("H", "G", inits=["A"], hist="full"), S("A", "H", inits=["A1"], full=True),
        S("A1", "A"), S("A2", "A"), S("B", "H"), S("K", "G"), S("Q", inits=["Q1"]), S("Q1", "Q")], **k)


def hmix(**k):
    # shallow history around deep history and an inner shallow one in a plain state
    return Chart("hmix", "G", [
        S("G", inits=["sh:H"], hist="shallow"), S("H", "G", inits=["A"], hist="deep", full=True), S("A", "H", inits=["A1"]),
        S("A1", "A"), S("A2", "A"), S("B", "H"), S("K", "G", inits=["sh:K1"], hist="shallow", full=True), S("K1", "K"), S("K2", "K"), S("Q")], **k)


def deep5(**k):
    # five levels, one region each, side branches at every level
    return Chart("deep5", "A", [
        S("A", inits=["B"]), S("B", "A", inits=["C"], full=True), S("C", "B", inits=["D"]), S("D", "C", inits=["E"], full=True), S("E", "D"),
        S("E2", "D", full=True), S("D2", "C"), S("B2", "A", inits=["C3"]), S("C3", "B2", full=True), S("Z")], **k)


def orth4(**k):
    # four regions, one of them nested orthogonal
    return Chart("orth4", "P", [
        S("P", inits=["A", "B", "C", "D"], full=True), S("A", "P", 0), S("B", "P", 1, inits=["B0", "B1"]), S("B0", "B", 0, full=True), S("B1", "B", 1),
        S("B3", "B", 1), S("C", "P", 2), S("D", "P", 3, full=True), S("D2", "P", 3), S("Q")], **k)


def hpair(**k):
    # two independent regions with history, nested history below the second
    return Chart("hpair", "H", [
        S("H", inits=["A", "dh:E"], hist="full", full=True), S("A", "H", 0), S("B", "H", 0, inits=["B1"]), S("B1", "B"), S("B2", "B"),
        S("E", "H", 1), S("F", "H", 1, inits=["sh:F1"], hist="shallow", full=True), S("F1", "F"), S("F2", "F"), S("Q")], **k)


def hreg3(**k):
    # three regions with shallow history in one state, two in another, both remembered at the same time
    return Chart("hreg3", "H", [
        S("H", inits=["sh:A", "sh:B", "sh:C"], hist="shallow", full=True), S("A", "H", 0), S("A2", "H", 0), S("B", "H", 1), S("B2", "H", 1, full=True),
        S("C", "H", 2), S("C2", "H", 2), S("Q", inits=["sh:D", "sh:E"], hist="shallow"), S("D", "Q", 0), S("D2", "Q", 0), S("E", "Q", 1), S("E2", "Q", 1)],
        skip=cross, **k)


def hdreg3(**k):
    # the same with deep history, two levels
    return Chart("hdreg3", "H", [
        S("H", inits=["dh:A", "dh:B", "dh:C"], hist="deep", full=True), S("A", "H", 0), S("A2", "H", 0, inits=["A3"]), S("A3", "A2"), S("A4", "A2"), S("B", "H", 1), S("B2", "H", 1, full=True),
        S("C", "H", 2), S("C2", "H", 2), S("Q", inits=["dh:D", "dh:E"], hist="deep"), S("D", "Q", 0), S("D2", "Q", 0, inits=["D3"]), S("D3", "D2"), S("E", "Q", 1), S("E2", "Q", 1)],
        skip=cross, **k)


def cross(s, d, a):
    """keeps the action menus of the big history charts small: between the two outer states only transitions to these states themselves"""
    big = {"H": "H", "Q": "Q"}
    def top(x): return "Q" if x[0] in "QDE" else "H"
    k, n = d
    if s in big: return n not in big and k == 0
    return k != 0 or top(s) != top(n) or n in big


def hdeep5(**k):
    # deep history on two levels of a five-level chart
    return Chart("hdeep5", "A", [
        S("A", inits=["dh:B"], hist="deep"), S("B", "A", inits=["C"], full=True), S("C", "B", inits=["dh:D"], hist="deep"), S("D", "C", inits=["E"], full=True),
        S("E", "D"), S("E2", "D", full=True), S("D2", "C"), S("C2", "B"), S("B2", "A"), S("Z")], **k)


# ---- declared reactions ------------------------------------------------------
C, I, T, X, D = "CUSTOM", "INSTATE", "TRANSITION", "TERMINATION", "DEFERRAL"


def t(n): return S.tgt(n)


def decl(**k):
    k.setdefault("kinds", 3)
    return Chart("decl", "X", [
        S("X", inits=["X1"], full=True, reactions=[(T, 0, t("Y"), "M"), (I, 1, None, "X"), (D, 2), (C, "*")]),
        S("X1", "X", reactions=[(C, 0), (T, 0, t("X2"), "-"), (T, 1, t("X2"), "X"), (C, 2)]),
        S("X2", "X", full=True, reactions=[(I, 0, None, "X"), (X, 1), (T, 2, t("X2"), "-")]),
        S("Y", inits=["Y1", "Y2"], reactions=[(C, 1), (X, "*")]),
        S("Y1", "Y", 0, full=True, reactions=[(D, 0), (C, 2), (D, 1)]),
        S("Y2", "Y", 1, reactions=[(T, "*", t("Y3"), "Y")]),
        S("Y3", "Y", 1, reactions=[(I, 1, None, "M"), (T, 2, t("X1"), "M"), (C, 0)])], **k)


def decl2(**k):
    k.setdefault("kinds", 3)
    return Chart("decl2", "P", [
        S("P", inits=["A", "B", "K"], full=True, reactions=[(C, 2), (I, "*", None, "P"), (T, 0, t("P"), "-")]),
        S("A", "P", 0, reactions=[]), S("A2", "P", 0, reactions=[(C, 1), (C, 0), (C, "*")]),
        S("B", "P", 1, inits=["B1"], reactions=[(C, 1), (T, 0, t("B2"), "P")]),
        S("B1", "B", full=True, reactions=[(I, 2, None, "B1"), (C, 0), (C, 1)]),
        S("B2", "P", 1, reactions=[(D, "*")]),
        S("K", "P", 2, full=True, reactions=[(T, 1, t("K2"), "M"), (X, 0), (C, 2)]),
        S("K2", "P", 2, reactions=[(D, 0), (T, 1, t("K"), "P"), (I, 0, None, "K2"), (I, 2)]),
        S("Q", reactions=[(T, 0, t("P"), "-"), (X, "*")])], **k)


def decl3(**k):
    """base-event reactions before and after exact ones, deferral on every level"""
    k.setdefault("kinds", 2)
    return Chart("decl3", "X", [
        S("X", inits=["X1"], reactions=[(D, "*"), (T, 0, t("Y"), "-")]),
        S("X1", "X", full=True, reactions=[(C, "*"), (I, 0, None, "X1")]),
        S("X2", "X", reactions=[(T, 1, t("Y"), "M"), (D, 0)]),
        S("Y", full=True, inits=["Y1"], reactions=[(C, 0), (T, 1, t("X2"), "M")]),
        S("Y1", "Y", reactions=[(D, 0), (T, "*", t("Y2"), "Y")]),
        S("Y2", "Y", full=True, reactions=[(C, "*")])], **k)


def declx(**k):
    """declared reactions to the exception event (translator charts)"""
    k.setdefault("kinds", 2)
    return Chart("declx", "X", [
        S("X", inits=["X1", "X2"], full=True, reactions=[(T, "x", t("Y"), "M"), (C, 0), (T, 1, t("Y"), "-")]),
        S("X1", "X", 0, reactions=[(I, "x", None, "X"), (T, 0, t("X3"), "X"), (C, 1)]),
        S("X2", "X", 1, inits=["X21"], full=True, reactions=[(X, "x"), (C, 0)]),
        S("X21", "X2", reactions=[(C, 0), (T, 1, t("X21"), "-")]),
        S("X3", "X", 0, full=True, reactions=[(T, "x", t("X1"), "-"), (D, 0), (C, 1)]),
        S("Y", reactions=[(T, 0, t("X"), "M"), (C, "*")])], **k)


def roles(**k):
    """contexts named by a base class: actions of transitions and in-state reactions, context<>() by base type"""
    k.setdefault("actstyle", "roles")
    k.setdefault("mrole", True)
    return Chart("roles", "X", [
        S("X", inits=["X1", "V"], role=True), S("X1", "X", 0, inits=["X11"], full=True, role=True), S("X11", "X1", full=True, role=True), S("X12", "X1"),
        S("X2", "X", 0), S("V", "X", 1, inits=["V1"], role=True), S("V1", "V", role=True), S("V2", "V", full=True), S("Y")], **k)


def declrole(**k):
    k.setdefault("kinds", 3)
    k.setdefault("mrole", True)
    return Chart("declrole", "X", [
        S("X", inits=["X1"], role=True, full=True, reactions=[(I, 1, None, "r:X"), (T, 2, t("Y"), "r:M"), (C, 0)]),
        S("X1", "X", inits=["X11"], role=True, reactions=[(I, 0, None, "r:X"), (T, 1, t("X2"), "r:X")]),
        S("X11", "X1", role=True, full=True, reactions=[(C, 2), (I, 0, None, "r:X11"), (T, 1, t("X12"), "r:X1")]),
        S("X12", "X1", reactions=[(I, "*", None, "r:M"), (C, 0)]),
        S("X2", "X", reactions=[(T, 0, t("X12"), "r:M"), (I, 1, None, "r:X"), (C, 2)]),
        S("Y", role=True, reactions=[(I, 0, None, "r:Y"), (T, "*", t("X12"), "r:M")])], **k)


CHARTS = {f.__name__: f for f in (flat, nest, orth, orth3, orthdeep, hshallow, hdeep, hfull, hmix, deep5, orth4, hpair, hdeep5,
                                  decl, decl2, decl3, declx, roles, declrole, hreg3, hdreg3)}
