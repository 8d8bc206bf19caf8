"""Contracts of the error classes (C24)."""
from __future__ import annotations

from .common import *


class ErrInit(ChannelSpec):
    """Constructing an error: class hierarchy and the object it refers to."""

    all_props = ("C24",)
    cname, bases, attr, arg = "", (), None, None      # arg: the class of the object referred to
    message = True

    def setup(self):
        short = self.cname.split(".")[0]
        self.mod(short)
        self.cls = self.pkg.cls(self.cname)
        self.about = None
        if self.arg == "user":
            self.about = self.arg_user("ABOUT")
        elif self.arg:
            self.about = self.ref("ABOUT", self.pkg.cls(self.arg))
            self.entry_about = self.about

    def call(self):
        args = []
        if self.message:
            args.append(self.it.fresh(T_STR, "MESSAGE"))
        if self.about is not None:
            args.append(self.about)
        return self.it.instantiate(self.cls, args, {})

    def returned(self, r):
        for b in self.bases + ("_exceptions.Error", "builtins.RuntimeError", "builtins.Exception"):
            self.prove(self.is_exc(r, b), "is-an-instance-of-the-documented-classes", None, b)
        if self.attr:
            got = self.it.to_val(self.it.getattr(r, self.attr))
            self.prove(got == self.it.to_val(self.about), "refers-to-exactly-the-given-object")

    def raised(self, e):
        self.prove(T(False), "does-not-fail", None, f"raised {self.eng.exc_name(e)}")


def cases(pkg):
    out = []
    for cname, bases, attr, arg, msg in (
            ("_exceptions.Error", (), None, None, True),
            ("_exceptions.ChannelError", (), "channel", "user", True),
            ("_exceptions.ChannelClosedError", ("_exceptions.ChannelError",), "channel", "user", False),
            ("_sender.SenderError", (), "sender", "_sender.Sender", True),
            ("_receiver.ReceiverError", (), "receiver", "_receiver.Receiver", True),
            ("_receiver.ReceiverStoppedError", ("_receiver.ReceiverError",), "receiver", "_receiver.Receiver", False),
            ("_select.SelectError", (), None, None, True),
            ("_select.UnhandledSelectedError", ("_select.SelectError",), "selected", "_select.Selected", False)):
        k = type("ErrInit", (ErrInit,), dict(cname=cname, bases=bases, attr=attr, arg=arg, message=msg))
        out.append(Case(f"{cname}.__init__", k, ("C24",)))
    return out
