"""A model of the urwid library: what its documentation says about the parts
which the viewer uses.  It is only read by the analysis, never run."""

CURSOR_UP = 'cursor up'
CURSOR_DOWN = 'cursor down'
CURSOR_LEFT = 'cursor left'
CURSOR_RIGHT = 'cursor right'
CURSOR_MAX_LEFT = 'cursor max left'
CURSOR_MAX_RIGHT = 'cursor max right'
ACTIVATE = 'activate'


class ExitMainLoop(Exception):
    pass


class TreeWidgetError(RuntimeError):
    pass


class CommandMap(object):

    def __init__(self):
        self._command = {
            'tab': 'next selectable', 'ctrl n': 'next selectable',
            'shift tab': 'prev selectable', 'ctrl p': 'prev selectable',
            'ctrl l': 'redraw screen', 'esc': 'menu', 'up': 'cursor up',
            'down': 'cursor down', 'left': 'cursor left',
            'right': 'cursor right', 'page up': 'cursor page up',
            'page down': 'cursor page down', 'home': 'cursor max left',
            'end': 'cursor max right', ' ': 'activate', 'enter': 'activate'}

    def __getitem__(self, key):
        return self._command.get(key, None)

    def __setitem__(self, key, command):
        self._command[key] = command

    def __delitem__(self, key):
        del self._command[key]


command_map = CommandMap()


def _supported(cls, name):
    for c in cls.__mro__:
        if c is not object and name in getattr(c, 'signals', ()):
            return True
    return False


def connect_signal(obj, name, callback, user_arg=None, weak_args=None,
                   user_args=None):
    if not _supported(type(obj), name):
        raise NameError('No such signal %r for object %r' % (name, obj))
    try:
        handlers = obj._urwid_handlers
    except AttributeError:
        handlers = obj._urwid_handlers = []
    handlers.append((name, callback, user_arg))


def disconnect_signal(obj, name, callback, user_arg=None, weak_args=None,
                      user_args=None):
    obj._urwid_handlers.remove((name, callback, user_arg))


def emit_signal(obj, name, *args):
    try:
        handlers = obj._urwid_handlers
    except AttributeError:
        return False
    for n, callback, user_arg in handlers:
        if n == name:
            if user_arg is not None:
                callback(*(args + (user_arg,)))
            else:
                callback(*args)
    return False


class Widget(object):

    _command_map = command_map
    _selectable = False

    def __init__(self):
        pass

    @property
    def base_widget(self):
        return self

    def selectable(self):
        return self._selectable

    def _invalidate(self):
        pass


class WidgetWrap(Widget):

    def __init__(self, w):
        self._w = w

    def selectable(self):
        return self._w.selectable()

    def keypress(self, size, key):
        return self._w.keypress(size, key)


class WidgetDecoration(Widget):

    def __init__(self, original_widget):
        self.original_widget = original_widget

    @property
    def base_widget(self):
        return self.original_widget.base_widget

    def selectable(self):
        return self.original_widget.selectable()

    def keypress(self, size, key):
        return self.original_widget.keypress(size, key)


class AttrMap(WidgetDecoration):

    def __init__(self, w, attr_map, focus_map=None):
        self.original_widget = w
        self.attr_map = attr_map
        self.focus_map = focus_map

    def set_attr_map(self, attr_map):
        self.attr_map = attr_map

    def get_attr_map(self):
        return self.attr_map

    def set_focus_map(self, focus_map):
        self.focus_map = focus_map


class AttrWrap(AttrMap):
    pass


class Padding(WidgetDecoration):

    def __init__(self, w, align='left', width=('relative', 100),
                 min_width=None, left=0, right=0):
        self.original_widget = w
        self.left = left
        self.right = right


class Filler(WidgetDecoration):

    def __init__(self, body, valign='middle'):
        self.original_widget = body


class BoxAdapter(WidgetDecoration):

    def __init__(self, box_widget, height):
        self.original_widget = box_widget
        self.height = height


def plain_text(markup):
    if isinstance(markup, tuple):
        return plain_text(markup[1])
    if isinstance(markup, list):
        out = ''
        for part in markup:
            out = out + plain_text(part)
        return out
    return markup


class Text(Widget):

    def __init__(self, markup='', align='left', wrap='space', layout=None):
        self.markup = markup
        self.align = align
        self.wrap = wrap

    def set_text(self, markup):
        self.markup = markup

    def get_text(self):
        return plain_text(self.markup), []

    @property
    def text(self):
        return plain_text(self.markup)


class SelectableIcon(Text):

    _selectable = True

    def __init__(self, text, cursor_position=0):
        Text.__init__(self, text)

    def keypress(self, size, key):
        return key


class WidgetList(object):

    def __init__(self, owner):
        self.owner = owner

    def __getitem__(self, i):
        return self.owner.contents[i][0]

    def __setitem__(self, i, widget):
        self.owner.contents[i] = (widget, self.owner.contents[i][1])

    def __len__(self):
        return len(self.owner.contents)


class Columns(Widget):

    def __init__(self, widget_list, dividechars=0, focus_column=None,
                 min_width=1, box_columns=None):
        self.contents = []
        self.dividechars = dividechars
        for w in widget_list:
            if isinstance(w, tuple):
                self.contents.append((w[-1], w[:-1]))
            else:
                self.contents.append((w, ('weight', 1)))

    @property
    def widget_list(self):
        return WidgetList(self)

    def keypress(self, size, key):
        return key


class Pile(Widget):

    def __init__(self, widget_list, focus_item=None):
        self.contents = []
        for w in widget_list:
            if isinstance(w, tuple):
                self.contents.append((w[-1], w[:-1]))
            else:
                self.contents.append((w, ('weight', 1)))

    @property
    def widget_list(self):
        return WidgetList(self)


class Frame(Widget):

    def __init__(self, body, header=None, footer=None, focus_part='body'):
        self.body = body
        self.header = header
        self.footer = footer

    def keypress(self, size, key):
        return self.body.keypress(size, key)


class SolidCanvas(object):

    def __init__(self, fill_char, cols, rows):
        self.size = (cols, rows)


class ListWalker(object):

    def _modified(self):
        pass


class TreeNode(object):

    def __init__(self, value, parent=None, key=None, depth=None):
        self._key = key
        self._parent = parent
        self._value = value
        self._depth = depth
        self._widget = None

    def get_widget(self, reload=False):
        if self._widget is None or reload:
            self._widget = self.load_widget()
        return self._widget

    def load_widget(self):
        return TreeWidget(self)

    def get_depth(self):
        if self._depth is None:
            if self._parent is None:
                self._depth = 0
            else:
                self._depth = self._parent.get_depth() + 1
        return self._depth

    def get_index(self):
        if self.get_depth() == 0:
            return None
        return self.get_parent().get_child_index(self.get_key())

    def get_key(self):
        return self._key

    def get_parent(self):
        return self._parent

    def get_value(self):
        return self._value

    def is_root(self):
        return self.get_depth() == 0

    def next_sibling(self):
        if self.get_depth() > 0:
            return self.get_parent().next_child(self.get_key())
        return None

    def prev_sibling(self):
        if self.get_depth() > 0:
            return self.get_parent().prev_child(self.get_key())
        return None

    def get_root(self):
        root = self
        while root.get_parent() is not None:
            root = root.get_parent()
        return root


class ParentNode(TreeNode):

    def __init__(self, value, parent=None, key=None, depth=None):
        TreeNode.__init__(self, value, parent, key, depth)
        self._child_keys = None
        self._children = {}

    def get_child_keys(self, reload=False):
        if self._child_keys is None or reload:
            self._child_keys = self.load_child_keys()
        return self._child_keys

    def load_child_keys(self):
        raise TreeWidgetError('virtual function')

    def get_child_widget(self, key):
        return self.get_child_node(key).get_widget()

    def get_child_node(self, key, reload=False):
        if key not in self._children or reload:
            self._children[key] = self.load_child_node(key)
        return self._children[key]

    def load_child_node(self, key):
        raise TreeWidgetError('virtual function')

    def get_child_index(self, key):
        i = 0
        for k in self.get_child_keys():
            if k is key:
                return i
            i += 1
        raise TreeWidgetError('no such key')

    def next_child(self, key):
        index = self.get_child_index(key)
        child_keys = self.get_child_keys()
        if index + 1 < len(child_keys):
            return self.get_child_node(child_keys[index + 1])
        return None

    def prev_child(self, key):
        index = self.get_child_index(key)
        if index >= 1:
            return self.get_child_node(self.get_child_keys()[index - 1])
        return None

    def get_first_child(self):
        return self.get_child_node(self.get_child_keys()[0])

    def get_last_child(self):
        return self.get_child_node(self.get_child_keys()[-1])

    def has_children(self):
        return len(self.get_child_keys()) > 0


class TreeWidget(WidgetWrap):

    indent_cols = 3
    unexpanded_icon = SelectableIcon('+', 0)
    expanded_icon = SelectableIcon('-', 0)

    def __init__(self, node):
        self._node = node
        self._innerwidget = None
        self.is_leaf = not isinstance(node, ParentNode)
        self.expanded = True
        widget = self.get_indented_widget()
        WidgetWrap.__init__(self, widget)

    def selectable(self):
        return not self.is_leaf

    def get_indented_widget(self):
        widget = self.get_inner_widget()
        return Padding(widget)

    def update_expanded_icon(self):
        pass

    def get_indent_cols(self):
        return self.indent_cols * self.get_node().get_depth()

    def get_inner_widget(self):
        if self._innerwidget is None:
            self._innerwidget = self.load_inner_widget()
        return self._innerwidget

    def load_inner_widget(self):
        return Text('')

    def get_node(self):
        return self._node

    def next_inorder(self):
        first_child = self.first_child()
        if first_child is not None:
            return first_child
        this_node = self.get_node()
        next_node = this_node.next_sibling()
        depth = this_node.get_depth()
        while next_node is None and depth > 0:
            this_node = this_node.get_parent()
            next_node = this_node.next_sibling()
            depth -= 1
        if next_node is None:
            return None
        return next_node.get_widget()

    def prev_inorder(self):
        this_node = self._node
        prev_node = this_node.prev_sibling()
        if prev_node is not None:
            prev_widget = prev_node.get_widget()
            last_child = prev_widget.last_child()
            if last_child is not None:
                return last_child
            return prev_widget
        if this_node.get_depth() == 0:
            return None
        return this_node.get_parent().get_widget()

    def keypress(self, size, key):
        if self.is_leaf:
            return key
        if key in ('+', 'right'):
            self.expanded = True
            self.update_expanded_icon()
            return None
        if key == '-':
            self.expanded = False
            self.update_expanded_icon()
            return None
        return key

    def first_child(self):
        if self.is_leaf or not self.expanded:
            return None
        if self._node.has_children():
            return self._node.get_first_child().get_widget()
        return None

    def last_child(self):
        if self.is_leaf or not self.expanded:
            return None
        if not self._node.has_children():
            return None
        last_child = self._node.get_last_child().get_widget()
        last_descendant = last_child.last_child()
        if last_descendant is None:
            return last_child
        return last_descendant


class TreeWalker(ListWalker):

    def __init__(self, start_from):
        self.focus = start_from

    def get_focus(self):
        widget = self.focus.get_widget()
        return widget, self.focus

    def set_focus(self, focus):
        self.focus = focus
        self._modified()

    def get_next(self, start_from):
        target = start_from.get_widget().next_inorder()
        if target is None:
            return None, None
        return target, target.get_node()

    def get_prev(self, start_from):
        target = start_from.get_widget().prev_inorder()
        if target is None:
            return None, None
        return target, target.get_node()


class ListBox(Widget):

    def __init__(self, body):
        self.body = body

    def get_focus(self):
        return self.body.get_focus()

    def set_focus(self, position, coming_from=None):
        self.body.set_focus(position)

    def change_focus(self, size, position, offset_inset=0, coming_from=None,
                     cursor_coords=None, snap_rows=None):
        self.body.set_focus(position)

    def keypress(self, size, key):
        widget, pos = self.body.get_focus()
        if widget is None:
            return key
        if widget.selectable():
            key = widget.keypress((size[0],), key)
            if key is None:
                return None
        command = self._command_map[key]
        if command == CURSOR_UP:
            widget, pos = self.body.get_prev(pos)
            if widget is None:
                return key
            self.change_focus(size, pos)
            return None
        if command == CURSOR_DOWN:
            widget, pos = self.body.get_next(pos)
            if widget is None:
                return key
            self.change_focus(size, pos)
            return None
        return key


class TreeListBox(ListBox):

    def keypress(self, size, key):
        key = ListBox.keypress(self, size, key)
        if key:
            return self.unhandled_input(size, key)
        return None

    def unhandled_input(self, size, data):
        if data == 'left':
            self.move_focus_to_parent(size)
            return None
        if data == '-':
            self.collapse_focus_parent(size)
            return None
        return data

    def collapse_focus_parent(self, size):
        widget, pos = self.body.get_focus()
        self.move_focus_to_parent(size)
        pwidget, ppos = self.body.get_focus()
        if pos is not ppos:
            self.keypress(size, '-')

    def move_focus_to_parent(self, size):
        widget, pos = self.body.get_focus()
        parentpos = pos.get_parent()
        if parentpos is None:
            return
        self.change_focus(size, parentpos)


class MainLoop(object):

    def __init__(self, widget, palette=(), screen=None, handle_mouse=True,
                 input_filter=None, unhandled_input=None, event_loop=None,
                 pop_ups=False):
        self.widget = widget
        self.palette = palette
        self.unhandled_input = unhandled_input
        self.event_loop = event_loop
        self.handle_mouse = handle_mouse
        self.given_screen = screen
