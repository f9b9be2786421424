"""Stand-ins for the CPACS libraries (TiXI: the document, TiGL: its geometry), which are not installed.

Documents are trees whose numbers may be symbolic; geometry questions are answered by functions given by the harness."""
import re


class TixiException(Exception):
    pass


class Node:
    def __init__(self, tag, *children, value=None, **attrs):
        self.tag, self.value, self.attrs = tag, value, {k: v for k, v in attrs.items() if v is not None}
        self.children = [c for c in children if c is not None]

    def copy(self):
        n = Node(self.tag, *[c.copy() for c in self.children], value=list(self.value) if isinstance(self.value, list) else self.value, **self.attrs)
        return n

    def walk(self, path=""):
        yield path + "/" + self.tag, self
        for c in self.children:
            yield from c.walk(path + "/" + self.tag)


def leaf(tag, value):
    return Node(tag, value=value)


class Tixi:
    """The document of a path; changes become visible when they are saved."""
    store = {}
    log = []

    def __init__(self):
        self.root, self.path = None, None

    def open(self, path, recursive=0):
        if path not in self.store:
            raise TixiException("no such file " + str(path))
        self.path, self.root = path, self.store[path].copy()
        self.log.append(("open", path))

    def openDocument(self, path):
        self.open(path)

    def _doc(self):
        if self.root is None:
            raise TixiException("no open document")
        return self.root

    def saveDocument(self, path):
        self.store[path] = self._doc().copy()
        self.log.append(("save", path))

    save = saveDocument

    def close(self):
        self._doc()
        self.root = None
        self.log.append(("close", self.path))

    def cleanup(self):
        self.root = None

    def checkDocumentHandle(self):
        return self.root is not None

    # ----- paths -----
    def _all(self, xpath):
        steps = [s.strip() for s in xpath.strip().split("/")]
        if steps[0] != "":
            raise TixiException("relative path " + xpath)
        top = Node("", self._doc())
        at = [top]
        for s in steps[1:]:
            m = re.fullmatch(r"([\w.:-]+)\s*(?:\[\s*(?:(\d+)|@uID\s*=\s*[\"']([^\"']*)[\"'])\s*\])?", s)
            if not m:
                raise TixiException("path " + xpath)
            nxt = []
            for n in at:
                c = [x for x in n.children if x.tag == m.group(1)]
                if m.group(2):
                    i = int(m.group(2)) - 1
                    c = c[i:i + 1] if i >= 0 else []
                elif m.group(3) is not None:
                    c = [x for x in c if x.attrs.get("uID") == m.group(3)]
                nxt += c
            at = nxt
        return at

    def _one(self, xpath):
        r = self._all(xpath)
        if len(r) != 1:
            raise TixiException(f"{len(r)} elements {xpath}")
        return r[0]

    def checkElement(self, xpath):
        return len(self._all(xpath)) > 0

    def xPathEvaluateNodeNumber(self, xpath):
        n = len(self._all(xpath))
        if not n:
            raise TixiException("no element " + xpath)
        return n

    def getNamedChildrenCount(self, xpath, name):
        return len([c for c in self._one(xpath).children if c.tag == name])

    def getNumberOfChilds(self, xpath):
        return len(self._one(xpath).children)

    def getTextAttribute(self, xpath, name):
        n = self._one(xpath)
        if name not in n.attrs:
            raise TixiException("no attribute " + name)
        return n.attrs[name]

    def checkAttribute(self, xpath, name):
        return name in self._one(xpath).attrs

    def getTextElement(self, xpath):
        n = self._one(xpath)
        if n.value is None or isinstance(n.value, list):
            raise TixiException("no text " + xpath)
        return n.value if isinstance(n.value, str) else str(n.value)

    def getDoubleElement(self, xpath):
        n = self._one(xpath)
        if n.value is None or isinstance(n.value, (str, list)):
            raise TixiException("no number " + xpath)
        return n.value

    def getIntegerElement(self, xpath):
        return self.getDoubleElement(xpath)

    def getVectorSize(self, xpath):
        n = self._one(xpath)
        if not isinstance(n.value, list):
            raise TixiException("no vector " + xpath)
        return len(n.value)

    def getFloatVector(self, xpath, count):
        n = self._one(xpath)
        if not isinstance(n.value, list) or count != len(n.value):
            raise TixiException("no vector " + xpath)
        return tuple(n.value)

    def updateFloatVector(self, xpath, vector, count, format=None):
        n = self._one(xpath)
        n.value = list(vector)[:count]

    def addFloatVector(self, parent, name, vector, count, format=None):
        n = self._one(parent)
        n.children.append(leaf(name, list(vector)[:count]))

    # ----- names -----
    def _named(self, uid):
        def look(n, path):
            if n.attrs.get("uID") == uid:
                return path
            seen = {}
            for c in n.children:
                seen[c.tag] = seen.get(c.tag, 0) + 1
                p = look(c, f"{path}/{c.tag}[{seen[c.tag]}]")
                if p:
                    return p
        return look(self._doc(), "/" + self._doc().tag)

    def uIDCheckExists(self, uid):
        return self._named(uid) is not None

    def uIDGetXPath(self, uid):
        p = self._named(uid)
        if p is None:
            raise TixiException("no uID " + uid)
        return p


class Tigl:
    """Answers come from the object 'geometry' that the harness provides."""
    geometry = None

    def __init__(self):
        self.tixi = None

    def open(self, tixi, uid=""):
        if tixi.root is None:
            raise TixiException("no open document")
        self.tixi = tixi

    def close(self):
        self.tixi = None

    def __getattr__(self, name):
        g = type(self).__dict__["geometry"] or self.geometry
        return getattr(g, name)


def libraries():
    """Fresh libraries."""
    from types import SimpleNamespace as NS
    tixi = type("Tixi", (Tixi,), {"store": {}, "log": []})
    tigl = type("Tigl", (Tigl,), {"geometry": None})
    return NS(tixi=tixi, tigl=tigl, tixiwrapper=NS(Tixi=tixi, TixiException=TixiException), tiglwrapper=NS(Tigl=tigl))


class Session:
    """The stand-ins in place of the libraries."""

    def __enter__(self):
        from pytornado.fileio.cpacs import aircraft, utils
        self.lib = libraries()
        self.saved = []
        for m, k, v in ((utils, "TIXI_INSTALLED", True), (utils, "TIGL_INSTALLED", True), (utils, "tixiwrapper", self.lib.tixiwrapper),
                        (utils, "tiglwrapper", self.lib.tiglwrapper), (aircraft, "tixiwrapper", self.lib.tixiwrapper)):
            self.saved.append((m, k, m.__dict__.get(k, self)))
            setattr(m, k, v)
        return self.lib

    def __exit__(self, *a):
        for m, k, v in reversed(self.saved):
            if v is self:
                delattr(m, k)
            else:
                setattr(m, k, v)
