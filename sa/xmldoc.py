"""XML documents whose structure is concrete and whose numbers are symbolic, read through stand-ins for lxml's elements."""
from . import terms as T
from .values import *
from .interp import Custom, Text


class Node(Custom):
    """element; what it holds is in the interpreter's heap from the first time it is written to (so that branches keep their own version)"""

    def __init__(self, tag, attrib=None, children=(), text=None, comment=False):
        self.tag, self.a, self.c, self.text, self.comment = tag, dict(attrib or {}), list(children), text, comment
        self.dv = self.cv = self.tv = None

    def attrib(self, I):
        if self.dv is None:
            self.dv = I.new_dict([('item', k, v) for k, v in self.a.items()])
        return self.dv

    def children(self, I):
        return self.c if self.cv is None else list(I.concrete_list(self.cv) or [])

    def grow(self, I):
        if self.cv is None:
            self.cv = I.list_of(list(self.c))
        return self.cv

    def get_text(self, I):
        return self.text if self.tv is None else I.resolve(I.concrete_list(self.tv)[0])

    def frozen(self, I):
        """the element as it is now, as an element of its own"""
        t = I.resolve(self.tag)
        d = {I.resolve(it[1]): I.resolve(it[2]) for it in I.get(self.attrib(I).id)[1]}
        return Node(t, d, [I.resolve(c).frozen(I) for c in self.children(I)], self.get_text(I), self.comment)

    def setattr(self, I, name, v, node):
        if name == 'text':
            if v is not None and not isinstance(v, (str, SStr, Text)):
                if isinstance(v, (int, float, Num, Obj, ListV, DictV, tuple)):
                    raise AbsRaise('TypeError', node)
                self.tv = I.list_of([I.unk('text of an element')])
                return
            if self.tv is None:
                self.tv = I.list_of([self.text])
            I.setitem(self.tv, 0, v, node)
        elif name == 'tail':
            pass
        elif name == 'tag':
            self.tag = v
        else:
            raise AbsRaise('AttributeError', node)

    def set(self, I, k, v, node):
        v = I.resolve(v)
        if not isinstance(v, (str, SStr, Text)) and not isinstance(v, Unknown):
            raise AbsRaise('TypeError', node)
        I.setitem(self.attrib(I), k, v, node)

    def append(self, I, c, node):
        c = I.resolve(c)
        if not isinstance(c, Node):
            raise AbsRaise('TypeError', node)
        if getattr(c, 'parent', None) is not None:
            c.parent.remove(I, c, node)
        I.call(I.getattr(self.grow(I), 'append'), [c], {}, node)
        c.parent = self

    def remove(self, I, c, node):
        I.call(I.getattr(self.grow(I), 'remove'), [c], {}, node)
        c.parent = None

    def adopt(self):
        for c in self.c:
            c.parent = self
            c.adopt()
        return self

    def getattr(self, I, name, node):
        if name == 'tag':
            return self.tag if not self.comment else Ext('lxml.etree.Comment')
        if name == 'text':
            return self.get_text(I)
        if name == 'tail':
            return None
        if name == 'attrib':
            return self.attrib(I)
        if name in ('get', 'keys', 'items', 'values'):
            return I.getattr(self.attrib(I), name, node)
        kids = self.children(I)
        if name in ('getchildren', 'iterchildren', '__iter__'):
            return Prim(name, lambda I, a, k, n: I.list_of([c for c in kids if not a or c.tag == a[0]]))
        if name == 'find':
            return Prim(name, lambda I, a, k, n: next((c for c in kids if not c.comment and c.tag == a[0]), None))
        if name == 'findall':
            return Prim(name, lambda I, a, k, n: I.list_of([c for c in kids if not c.comment and c.tag == a[0]]))
        if name == 'set':
            return Prim(name, lambda I, a, k, n: self.set(I, a[0], a[1], n))
        if name == 'append':
            return Prim(name, lambda I, a, k, n: self.append(I, a[0], n))
        if name == 'remove':
            return Prim(name, lambda I, a, k, n: self.remove(I, I.resolve(a[0]), n))
        if name == 'extend':
            def ext(I, a, k, n):
                for c in list(I.concrete_list(a[0])):
                    self.append(I, c, n)
            return Prim(name, ext)
        if name in ('__copy__', '__deepcopy__'):
            return Prim(name, lambda I, a, k, n: self.frozen(I).adopt())
        if name in ('sourceline', 'getparent', 'getroottree', 'iter', 'xpath', 'nsmap', 'prefix', 'insert', 'findtext', 'itertext', 'base', 'clear', 'makeelement', 'addnext', 'addprevious', 'replace', 'index'):
            return I.unk('element.%s' % name)
        raise AbsRaise('AttributeError', node)

    def getitem(self, I, k, node):
        if isinstance(k, int):
            c = self.children(I)
            if not -len(c) <= k < len(c):
                raise AbsRaise('IndexError', node)
            return c[k]
        return I.unk('element[...]')

    def length(self, I):
        return len(self.children(I))

    def iterate(self, I):
        return list(self.children(I))


class Tree(Custom):
    def __init__(self, root):
        self.root = root

    def getattr(self, I, name, node):
        if name == 'getroot':
            return Prim('getroot', lambda I, a, k, n: self.root)
        return I.unk('element tree.%s' % name)


class XmlText(Custom):
    """serialised document"""
    pytype = 'str'
    truth = True

    def __init__(self, root, head=''):
        self.root, self.head = root, head

    def getattr(self, I, name, node):
        if name in ('strip', 'rstrip', 'lstrip', 'decode', 'encode'):
            return Prim(name, lambda I, a, k, n: self)
        if not hasattr(str, name):
            raise AbsRaise('AttributeError', node)
        return I.unk('str.%s of an xml text' % name)

    def add(self, I, other, left):
        if isinstance(other, str):
            return XmlText(self.root, other + self.head) if left else self
        return I.unk('xml text + ...')


def install(I, docs):
    """docs: text -> Node; etree.fromstring(text) gives the document"""
    def fromstring(I, a, k, n):
        t = I.resolve(a[0])
        if isinstance(t, Node):
            return t
        if isinstance(t, str) and t in docs:
            return docs[t].adopt()
        if isinstance(t, XmlText):
            return t.root.frozen(I).adopt()
        return I.unk('document text')

    def element(I, a, k, n):
        e = Node(I.resolve(a[0]))
        for q, v in k.items():
            if q in ('attrib', 'nsmap'):
                return I.unk('etree.Element with %s' % q)
            e.set(I, q, v, n)
        return e

    def sub(I, a, k, n):
        p = I.resolve(a[0])
        if not isinstance(p, Node):
            raise AbsRaise('TypeError', n)
        e = element(I, a[1:], k, n)
        if isinstance(e, Node):
            p.append(I, e, n)
        return e

    for nm in ('lxml.etree.fromstring', 'lxml.etree.XML'):
        I.ext[nm + '()'] = fromstring
    I.ext['lxml.etree.ElementTree()'] = lambda I, a, k, n: Tree(I.resolve(a[0] if a else None))
    I.ext['lxml.etree.Element()'] = element
    I.ext['lxml.etree.SubElement()'] = sub
    I.ext['lxml.etree.tostring()'] = lambda I, a, k, n: XmlText(I.resolve(a[0]).frozen(I)) if isinstance(I.resolve(a[0]), Node) else I.unk('tostring')


def words(w):
    """text of the given words"""
    return Text([p for k, x in enumerate(w) for p in ([' ', x] if k else [x])], w)


def number(name):
    v = T.atom(name)
    return NumStr(T.atom('text!' + name, sort='S'), v)


def vector(name, n):
    return words([number('%s!%d' % (name, i)) for i in range(n)])
