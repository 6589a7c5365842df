"""
Drives rktool.py without a screen: stands in for Kivy (as far as rktool.py and
rktool.kv use it) and for zbar. Widgets are found by what a user sees - the
text of a button, the title of a dialog - and rktool.kv is interpreted.
"""
import importlib
import importlib.abc
import importlib.machinery
import os
import pickle
import re
import sys
import threading
import types

from . import env

KV = os.path.join(env.REPO, 'rktool.kv')


class Crash(Exception):
    """ an exception that would have ended the program """


# Kivy's widgets must only be changed by the thread the program runs in
THREAD = [None]
STRAY = []


def own_thread(what):
    if THREAD[0] is not None and threading.get_ident() != THREAD[0]:
        STRAY.append(what)
        raise Crash(what + ' outside the main thread')


# ------------------------------------------------------------ properties

class Prop(object):
    def __init__(self, default=None, *a, **kw):
        self.default = default

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj.__dict__.get(self.name, self.default)

    def check(self, obj, v):
        return v

    def __set__(self, obj, v):
        own_thread('%s.%s is changed' % (type(obj).__name__, self.name))
        v = self.check(obj, v)
        old = self.__get__(obj)
        obj.__dict__[self.name] = v
        if old is v or type(old) is type(v) and old == v:
            return
        f = getattr(obj, 'on_' + self.name, None)
        if f is not None:
            f(obj, v)
        for f in obj.__dict__.get('_bound', {}).get(self.name, []):
            f(obj, v)


class StringProp(Prop):
    def check(self, obj, v):
        if not isinstance(v, str):
            raise ValueError('%s.%s accept only str' % (
                type(obj).__name__, self.name))
        return v


class TextProp(StringProp):
    """ the text of a TextInput """
    def check(self, obj, v):
        if isinstance(v, bytes):
            v = v.decode('utf-8')
        return v.replace('\r\n', '\n')


class BoolProp(Prop):
    def check(self, obj, v):
        if v is not True and v is not False:
            raise ValueError('%s.%s accept only bool' % (type(obj).__name__,
                self.name))
        return v


# --------------------------------------------------------------- widgets

class Dispatcher(object):
    def bind(self, **kw):
        b = self.__dict__.setdefault('_bound', {})
        for k, f in kw.items():
            b.setdefault(k, []).append(f)

    fbind = lambda self, name, f, *a: self.bind(**{name: f})

    def unbind(self, **kw):
        b = self.__dict__.setdefault('_bound', {})
        for k, f in kw.items():
            if f in b.get(k, []):
                b[k].remove(f)

    def dispatch(self, name, *a):
        for f in list(self.__dict__.get('_bound', {}).get(name, [])):
            if f(self, *a):
                break
        f = getattr(self, name, None)
        if f is not None and not isinstance(f, Prop):
            f(*a)


class Widget(Dispatcher):
    width = height = 100
    size = (100, 100)
    pos = (0, 0)
    x = y = 0
    texture_size = (10, 10)
    minimum_height = minimum_width = 100
    parent = None
    disabled = BoolProp(False)
    background_color = (1, 1, 1, 1)

    def __init__(self, **kw):
        self.children = []
        self.__dict__.setdefault('_bound', {})
        events = {}
        for k, v in kw.items():
            if k.startswith('on_'):
                events[k] = v
            else:
                setattr(self, k, v)
        kv_apply(self, set(kw))
        self.bind(**events)

    def add_widget(self, w, *a, **kw):
        own_thread('%s is changed' % type(self).__name__)
        if not isinstance(w, Widget):
            raise TypeError('add_widget(): %r is not a widget' % (w,))
        if w.parent is not None:
            raise ValueError('Cannot add %r, it already has a parent' % (w,))
        w.parent = self
        self.children.append(w)

    def remove_widget(self, w):
        if w in self.children:
            self.children.remove(w)
            w.parent = None

    def clear_widgets(self, children=None):
        for w in list(children or self.children):
            self.remove_widget(w)

    def walk(self):
        yield self
        for c in list(self.children):
            for w in c.walk():
                yield w


class Label(Widget):
    text = StringProp('')


class Button(Label):
    state = 'normal'


class ToggleButton(Button):
    pass


class CheckBox(Widget):
    state = 'normal'


class TextInput(Widget):
    text = TextProp('')


class FileChooserListView(Widget):
    path = StringProp('/')
    selection = Prop([])


class ActionButton(Button):
    pass


class ListView(Widget):
    adapter = Prop(None)

    def rows(self):
        """ the texts of each shown row """
        a = self.adapter
        out = []
        for i, k in enumerate(a.sorted_keys):
            w = a.cls(**a.args_converter(i, a.data[k]))
            out.append([x.text for x in w.walk() if isinstance(x, Label)])
        return out


class DictAdapter(Dispatcher):
    def __init__(self, **kw):
        self.sorted_keys = None
        for k, v in kw.items():
            setattr(self, k, v)
        if self.sorted_keys is None:
            self.sorted_keys = sorted(self.data)


class TreeViewNode(object):
    parent_node = None

    @property
    def nodes(self):
        return self.__dict__.setdefault('_nodes', [])


class TreeViewLabel(Label, TreeViewNode):
    pass


class TreeView(Widget):
    def __init__(self, **kw):
        self._root = TreeViewLabel()
        super().__init__(**kw)

    @property
    def root(self):
        return self._root

    def add_node(self, node, parent=None):
        if not isinstance(node, TreeViewNode):
            raise Exception('The node must be a subclass of TreeViewNode')
        parent = self._root if parent is None else parent
        node.parent_node = parent
        parent.nodes.append(node)
        return node

    def remove_node(self, node):
        if node is self._root:
            return
        p = node.parent_node
        if p is not None:
            if node in p.nodes:
                p.nodes.remove(node)
            node.parent_node = None

    def iterate_all_nodes(self, node=None):
        node = node or self._root
        yield node
        for c in node.nodes:
            for n in self.iterate_all_nodes(c):
                yield n

    def iterate_open_nodes(self, node=None):
        return self.iterate_all_nodes(node)

    def walk(self):
        yield self
        for n in list(self.iterate_all_nodes()):
            if n is not self._root:
                for w in n.walk():
                    yield w


class ModalView(Widget):
    def open(self, *a, **kw):
        own_thread('%s is opened' % type(self).__name__)
        if self in WINDOW.children:
            return
        WINDOW.children.insert(0, self)
        self.dispatch('on_open')

    def dismiss(self, *a, **kw):
        own_thread('%s is closed' % type(self).__name__)
        if self in WINDOW.children:
            WINDOW.children.remove(self)
            self.dispatch('on_dismiss')


class Popup(ModalView):
    title = StringProp('')
    content = Prop(None)

    def walk(self):
        yield self
        if self.content is not None:
            for w in self.content.walk():
                yield w


class WindowClass(Dispatcher):
    width, height, keyboard_height = 800, 600, 0

    def __init__(self):
        self.children = []


class ClockClass(object):
    def __init__(self):
        self.queue = []

    def schedule_once(self, f, t=0):
        self.queue.append(f)
        return types.SimpleNamespace(cancel=lambda: f in self.queue and
                self.queue.remove(f))

    create_trigger = None


WINDOW = WindowClass()
CLOCK = ClockClass()


def mainthread(f):
    def g(*a, **kw):
        CLOCK.schedule_once(lambda dt: f(*a, **kw))
    g.__name__ = getattr(f, '__name__', 'f')
    return g


class App(Dispatcher):
    _running = None

    def __init__(self, **kw):
        App._running = self

    @staticmethod
    def get_running_app():
        return App._running

    def stop(self, *a):
        STOPPED.append(self)

    def run(self):
        raise Crash('run')


STOPPED = []


class Screens(Widget):
    current = None


# -------------------------------------------------------- the fake package

KNOWN = {c.__name__: c for c in (Widget, Label, Button, ToggleButton, CheckBox,
    TextInput, FileChooserListView, ActionButton, ListView, TreeView,
    TreeViewNode, TreeViewLabel, ModalView, Popup, DictAdapter, App)}
KNOWN.update({'ObjectProperty': Prop, 'StringProperty': StringProp,
    'BooleanProperty': BoolProp, 'NumericProperty': Prop, 'OptionProperty':
    Prop, 'AliasProperty': Prop, 'ReferenceListProperty': Prop,
    'DictProperty': lambda d=None, **kw: Prop({} if d is None else d),
    'ListProperty': lambda d=None, **kw: Prop([] if d is None else d),
    'Window': WINDOW, 'Clock': CLOCK, 'mainthread': mainthread, 'platform':
    'linux', 'require': lambda v: None, '__version__': '1.9.1',
    'SelectableView': type('SelectableView', (object,), {}),
    'ScreenManager': Screens})
GENERIC = {}


def named(name):
    """ any other class of Kivy """
    if name in KNOWN:
        return KNOWN[name]
    if name not in GENERIC:
        GENERIC[name] = type(name, (Widget,), {})
    return GENERIC[name]


class FakeModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return named(name)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name == 'kivy' or name.startswith('kivy.'):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        if name == 'zbar':
            return importlib.machinery.ModuleSpec(name, self)

    def create_module(self, spec):
        m = FakeModule(spec.name)
        if spec.name == 'zbar':
            m.Image, m.ImageScanner = ZImage, ZScanner
        else:
            m.__path__ = []
            m.require = lambda v: None
        return m

    def exec_module(self, m):
        pass


class ZImage(object):
    """ the "QR codes" of an image are written into its first pixels """
    def __init__(self, width, height, fmt, data):
        assert fmt == 'Y800'
        self.width, self.height, self.data = width, height, bytes(data)
        self.symbols = []

    def __iter__(self):
        return iter(self.symbols)


class ZScanner(object):
    def parse_config(self, *a):
        pass

    def scan(self, img):
        import json
        if len(img.data) != img.width * img.height:
            raise ValueError('wrong size')
        n = int.from_bytes(img.data[:2], 'big')
        try:
            js = json.loads(img.data[2:2 + n].decode('utf-8'))
        except ValueError:
            js = []
        img.symbols = [types.SimpleNamespace(type=t, data=s) for t, s in js]
        return len(img.symbols)


def picture(fn, codes, mode='L'):
    """ writes an image with the given [(type, text)] """
    import json
    from PIL import Image
    b = json.dumps(codes).encode()
    b = len(b).to_bytes(2, 'big') + b
    w = 61
    h = len(b) // w + 7
    b += bytes(w * h - len(b))
    img = Image.frombytes('L', (w, h), b)
    if mode != 'L':
        img = img.convert(mode)
    img.save(fn)


# ----------------------------------------------------------------- pools

class FakePool(object):
    """ multiprocessing.Pool whose jobs run when the test says so """
    all = []

    def __init__(self, processes=None, initializer=None, initargs=(), *a,
            **kw):
        self.jobs = []
        self.alive = True
        self.closed = False
        self.n = processes
        FakePool.all.append(self)

    def add(self, f, a, kw, many, callback, error):
        if not self.alive or self.closed:
            raise ValueError('Pool not running')
        try:
            self.jobs.append((pickle.dumps((f, a, kw, many)), callback, error))
        except Exception as e:
            # the job is lost
            self.jobs.append((e, callback, error))

    def apply_async(self, func, args=(), kwds={}, callback=None,
            error_callback=None):
        self.add(func, args, kwds, False, callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None,
            error_callback=None):
        self.add(func, list(iterable), {}, True, callback, error_callback)

    starmap_async = None

    def terminate(self):
        self.alive = False
        self.jobs = []

    def close(self):
        self.closed = True

    def join(self):
        if self.alive and not self.closed:
            raise ValueError('Pool is still running')
        while self.alive and self.jobs:
            self.step()

    def step(self):
        data, cb, err = self.jobs.pop(0)
        try:
            if isinstance(data, Exception):
                raise data
            f, a, kw, many = pickle.loads(data)
            if many:
                r = [pickle.loads(pickle.dumps(f(x))) for x in a]
            else:
                r = pickle.loads(pickle.dumps(f(*a, **kw)))
        except Exception as e:
            LOST.append(e)
            if err is not None:
                err(e)
            return
        if cb is not None:
            other_thread(cb, r)


def other_thread(f, *a):
    """ runs f like the thread of a pool does """
    out = []

    def g():
        try:
            f(*a)
        except Exception as e:
            out.append(e)
    t = threading.Thread(target=g)
    t.start()
    t.join()
    if out:
        raise out[0]


LOST = []


# -------------------------------------------------------------- kv language

class Node(object):
    def __init__(self, name, line):
        self.name = name
        self.line = line
        self.props = []         # (name, source)
        self.nodes = []
        self.id = None


def kv_parse(text):
    rules, dynamic, imports = {}, {}, []
    stack = []
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        if l.startswith('#:import'):
            imports.append(l.split()[1:3])
        s = l.strip()
        if not s or s.startswith('#'):
            continue
        ind = len(l) - len(l.lstrip())
        while stack and stack[-1][0] >= ind:
            stack.pop()
        if ind == 0:
            m = re.match(r'<([-\w,@+ ]+)>\s*:$', s)
            if not m:
                raise ValueError('kv line %d: %r' % (i, l))
            node = Node(None, i)
            for n in m.group(1).lstrip('-').split(','):
                n = n.strip()
                if '@' in n:
                    n, base = n.split('@')
                    dynamic[n] = base.split('+')
                rules.setdefault(n, []).append(node)
            stack = [(0, node)]
            continue
        name, _, src = s.partition(':')
        name, src = name.strip(), src.strip()
        parent = stack[-1][1]
        if re.match(r'[A-Z]\w*$', name):
            node = Node(name, i)
            parent.nodes.append(node)
            stack.append((ind, node))
            continue
        # further lines of the same value
        block = []
        while i < len(lines):
            n = lines[i]
            if n.strip() and len(n) - len(n.lstrip()) <= ind:
                break
            if n.strip():
                block.append(n)
            i += 1
        if block:
            cut = len(block[0]) - len(block[0].lstrip())
            src = '\n'.join(([src] if src else []) + [b[cut:] for b in block])
        if name == 'id':
            parent.id = src
        else:
            parent.props.append((name, src))
    return rules, dynamic, imports


class Rules(object):
    rules = None


def kv_load():
    with open(KV, encoding='utf-8') as f:
        Rules.rules, Rules.dynamic, Rules.imports = kv_parse(f.read())
    Rules.module = None
    Rules.classes = {}


def kv_class(name):
    if name in Rules.classes:
        return Rules.classes[name]
    if name in Rules.dynamic:
        c = type(name, tuple(kv_class(b.strip()) for b in Rules.dynamic[name]),
                {})
    elif Rules.module is not None and hasattr(Rules.module, name):
        return getattr(Rules.module, name)
    else:
        return named(name)
    Rules.classes[name] = c
    return c


VITAL = {'text', 'disabled', 'state', 'change', 'group', 'adapter', 'path',
        'selection', 'title'}
BINDINGS = []


def kv_apply(w, given=()):
    if Rules.rules is None:
        return
    for c in reversed(type(w).__mro__):
        for rule in Rules.rules.get(c.__name__, []):
            kv_rule(w, rule, given)


def kv_rule(w, rule, given):
    ids = {}
    todo = []

    def build(node, widget):
        if node.id:
            ids[node.id] = widget
        todo.append((node, widget))
        for n in node.nodes:
            c = kv_class(n.name)()
            build(n, c)
            widget.add_widget(c)
    build(rule, w)
    base = {'root': w, 'app': App._running, 'ids': types.SimpleNamespace(**ids)}
    for a, m in Rules.imports:
        base[a] = importlib.import_module(m)
    base.update(ids)
    for node, x in todo:
        ns = dict(base, self=x)
        for name, src in node.props:
            if name.startswith('on_'):
                code = compile(src, 'rktool.kv:%d' % node.line, 'exec')

                def handler(self, *a, code=code, ns=ns):
                    exec(code, dict(ns, args=(self,) + a))
                x.bind(**{name: handler})
                continue
            if x is w and name in given and not re.search(r'[.(]', src):
                continue
            code = compile(src, 'rktool.kv:%d' % node.line, 'eval')
            vital = name in VITAL or isinstance(getattr(type(x), name, None),
                    Prop)
            try:
                v = eval(code, dict(ns))
            except Exception:
                if vital:
                    raise
                continue
            setattr(x, name, v)
            if vital and re.search(r'[a-z]\w*\.\w', src):
                BINDINGS.append([x, name, code, ns, v])


def kv_settle():
    for _ in range(3):
        again = False
        for b in BINDINGS:
            x, name, code, ns, old = b
            v = eval(code, dict(ns))
            if v is not old and v != old:
                b[4] = v
                setattr(x, name, v)
                again = True
        if not again:
            break


# ---------------------------------------------------------------- driver

FINDER = Finder()


class Gui(object):
    """ one run of the program """
    def __init__(self, nprocs=2, pool=FakePool):
        import multiprocessing
        self.old = {n: m for n, m in sys.modules.items() if n == 'kivy' or
                n.startswith('kivy.') or n in ('zbar', 'rktool', 'img_decode')}
        self.forget()
        sys.meta_path.insert(0, FINDER)
        WINDOW.children[:] = []
        WINDOW.__dict__.pop('_bound', None)
        CLOCK.queue[:] = []
        STOPPED[:] = []
        LOST[:] = []
        FakePool.all[:] = []
        BINDINGS[:] = []
        STRAY[:] = []
        THREAD[0] = threading.get_ident()
        kv_load()
        self.pool = pool
        self.late = None
        old = multiprocessing.Pool
        if pool is not None:
            multiprocessing.Pool = pool
        try:
            self.m = importlib.import_module('rktool')
        finally:
            multiprocessing.Pool = old
        Rules.module = self.m
        self.app = self.m.RKToolApp(nprocs)
        App._running = self.app
        self.root = self.app.build()
        self.act(lambda: self.app.dispatch('on_start'))

    def forget(self):
        for n in list(sys.modules):
            if n == 'kivy' or n.startswith('kivy.') or n in ('zbar', 'rktool',
                    'img_decode'):
                del sys.modules[n]

    def close(self):
        try:
            self.app.dispatch('on_stop')
        finally:
            THREAD[0] = None
            sys.meta_path.remove(FINDER)
            self.forget()
            sys.modules.update(self.old)
            App._running = None

    # ------------------------------------------------------------ events

    def act(self, f):
        """ something the user or the system does; frames follow """
        try:
            if self.late is not None:
                # a job ends at the same time
                self.late -= 1
                if self.late < 0:
                    self.late = None
                    self.step()
            f()
        except Exception as e:
            raise Crash('%s: %s' % (type(e).__name__, e)) from e
        self.frame()

    def step(self):
        p = [p for p in FakePool.all if p.alive and p.jobs]
        if p:
            p[0].step()
        return bool(p)

    def frame(self):
        try:
            if STRAY:
                raise Crash(STRAY.pop() + ' outside the main thread')
            kv_settle()
            while CLOCK.queue:
                q, CLOCK.queue[:] = list(CLOCK.queue), []
                for f in q:
                    f(0)
                kv_settle()
        except Exception as e:
            raise Crash('%s: %s' % (type(e).__name__, e)) from e

    def jobs(self, n=None):
        """ lets the pool do up to n jobs -> number done """
        k = 0
        while n is None or k < n:
            p = [p for p in FakePool.all if p.alive and p.jobs]
            if not p:
                break
            self.act(p[0].step)
            k += 1
        return k

    # ----------------------------------------------------------- finding

    def top(self):
        return WINDOW.children[0] if WINDOW.children else self.root

    def find(self, cls, inside=None, name=None):
        """ widgets of a class (by its name) below one """
        return [w for w in (inside or self.top()).walk() if any(c.__name__ ==
            cls for c in type(w).__mro__)]

    def button(self, text, inside=None):
        b = [w for w in self.find('Button', inside) if w.text == text]
        return b[0] if b else None

    def press(self, b):
        """ -> False if it can't be pressed """
        if b is None or b.disabled is True:
            return False

        def f():
            b.dispatch('on_press')
            b.dispatch('on_release')
        self.act(f)
        return True

    def type(self, w, text):
        def f():
            w.text = text
        self.act(f)

    def dialogs(self):
        return list(WINDOW.children)

    def error(self):
        """ closes an error dialog -> its text """
        t = self.top()
        if not isinstance(t, Popup) or t.title != _('Error'):
            return None
        ls = [w.text for w in t.walk() if isinstance(w, Label) and not
                isinstance(w, Button)]
        if not self.press(self.button('Ok')):
            raise Crash('the error dialog can not be closed')
        if t in WINDOW.children:
            raise Crash('the error dialog stays open')
        return ls[0]

    def errors(self):
        out = []
        while True:
            e = self.error()
            if e is None:
                return out
            out.append(e)

    def choose(self, path):
        """ selects a file in the open dialog and presses Load """
        fc = self.find('FileChooserListView')
        if not fc:
            return False

        def f():
            fc[0].path = os.path.dirname(path) if path else '/'
            fc[0].selection = [path] if path else []
        self.act(f)
        return self.press(self.button(_('Load')))
