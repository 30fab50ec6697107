"""Stand-ins for OpenGL, pygame and ffmpeg that record what is drawn instead of drawing it.

What the renderer draws is kept as a list of quads and lines in world coordinates. A quad remembers which part of
which sprite sheet (in pixels from the sheet's top left) lies on each of its corners, so that flipping, scaling and
sprite selection are judged by their effect. Pictures read back from a framebuffer carry the number of their content
in their pixels, and the number of each row."""
import os
import re
import sys
import types

import numpy as np

SHEETS = {  # file -> size of one frame, frames across, frames down (as in the game)
    'hr-transport-belt.png': (128, 128, 16, 20),
    'hr-underground-belt-structure.png': (192, 192, 4, 2),
    'hr-splitter-east.png': (90, 84, 8, 4),
    'hr-splitter-east-top_patch.png': (90, 104, 8, 4),
    'hr-splitter-west.png': (90, 86, 8, 4),
    'hr-splitter-west-top_patch.png': (90, 96, 8, 4),
    'hr-splitter-south.png': (164, 64, 8, 4),
    'hr-splitter-north.png': (160, 70, 8, 4),
    'hr-inserter-platform.png': (105, 79, 4, 1),
    'hr-long-handed-inserter-platform.png': (105, 79, 4, 1),
    'hr-inserter-hand-base.png': (32, 136, 1, 1),
    'hr-long-handed-inserter-hand-base.png': (32, 136, 1, 1),
    'hr-inserter-hand-open.png': (72, 164, 1, 1),
    'hr-long-handed-inserter-hand-open.png': (72, 164, 1, 1),
    'hr-inserter-hand-closed.png': (72, 164, 1, 1),
    'hr-long-handed-inserter-hand-closed.png': (72, 164, 1, 1),
    'hr-assembling-machine-1.png': (214, 226, 8, 4),
}
NAMES = sorted(SHEETS)
_images = {}


def image(name):
    """A picture of the sheet's size: red is the number of the sheet, green and blue the number of the row."""
    from PIL import Image
    name = os.path.basename(str(name))
    if name not in _images:
        w, h, nx, ny = SHEETS[name]
        a = np.zeros((h * ny, w * nx, 4), np.uint8)
        a[..., 0] = NAMES.index(name) + 1
        a[..., 1] = (np.arange(h * ny) % 256)[:, None]
        a[..., 2] = (np.arange(h * ny) // 256)[:, None]
        a[..., 3] = 255
        _images[name] = Image.fromarray(a, 'RGBA')
    return _images[name].copy()


class Quad:
    def __init__(self, sheet, corners, colour, text=None):
        self.sheet = sheet        # file name, or None for text
        self.corners = corners    # [((sheet x, sheet y), (world x, world y))]
        self.colour = colour
        self.text = text

    def rect(self):
        """(sheet x0, y0, x1, y1), (world x0, y0, x1, y1) of an upright, unmirrored quad, or None."""
        world = [c[1] for c in self.corners]
        xs, ys = sorted({w[0] for w in world}), sorted({w[1] for w in world})
        if len(xs) != 2 or len(ys) != 2 or len(set(world)) != 4:
            return None
        at = {w: s for s, w in self.corners}
        a, b = at[xs[0], ys[0]], at[xs[1], ys[1]]
        if at[xs[1], ys[0]] != (b[0], a[1]) or at[xs[0], ys[1]] != (a[0], b[1]):
            return None
        return (*a, *b), (xs[0], ys[0], xs[1], ys[1])

    def moved(self, dx, dy):
        return (self.sheet, tuple((s, (r(w[0] - dx), r(w[1] - dy))) for s, w in self.corners))

    def key(self):
        return (self.sheet, self.text, tuple(self.corners), self.colour)


def r(v):
    v = round(float(v) + 1.7e-7, 6)   # beside the values that coordinates really have, so that noise does not decide
    return v + 0.0 if v else 0.0


class Content:
    """What has been drawn into a framebuffer since it was last cleared."""

    def __init__(self, viewport):
        self.viewport = viewport
        self.ortho = None
        self.items = []    # ('quad', Quad) and ('line', (a, b), colour)

    def key(self):
        return (self.viewport, self.ortho, tuple((k, v.key()) if k == 'quad' else (k, v) for k, v in self.items))


class State:
    def __init__(self):
        self.stack = [np.eye(3)]
        self.projection = np.eye(3)
        self.mode = 'MODEL'
        self.ortho = None
        self.viewport = None
        self.colour = (1.0, 1.0, 1.0)
        self.texcoord = (0.0, 0.0)
        self.texturing = False
        self.bound = 0
        self.textures = {}
        self.next = 1
        self.begun = None
        self.vertices = []
        self.fb = {'draw': 0, 'read': 0}
        self.contents = {}         # framebuffer -> Content
        self.attached = {}         # framebuffer -> texture
        self.numbers = {}          # id(Content) -> number
        self.by_number = []
        self.shown = []            # content number per displayed frame
        self.exports = []          # (file name, options, input options, bytes)
        self.problems = []
        self.modes = []            # window sizes
        self.captions = []
        self.unknown = set()

    def number(self, content):
        if content is None:
            return 0
        if id(content) not in self.numbers:
            self.by_number.append(content)
            self.numbers[id(content)] = len(self.by_number)
        return self.numbers[id(content)]

    def new(self):
        self.next += 1
        return self.next

    def content(self):
        fb = self.fb['draw']
        if fb not in self.contents:
            self.contents[fb] = Content(tuple(self.viewport or ()))
        return self.contents[fb]


S = State()


def reset():
    global S
    S = State()


def mul(m):
    if S.mode == 'MODEL':
        S.stack[-1] = S.stack[-1] @ m
    else:
        S.projection = S.projection @ m


def world(x, y):
    v = S.stack[-1] @ np.array([x, y, 1.0])
    return r(v[0]), r(v[1])


class Functions:
    def glMatrixMode(self, m):
        S.mode = 'MODEL' if m == CONST['GL_MODELVIEW'] else 'PROJECTION'

    def glLoadIdentity(self):
        if S.mode == 'MODEL':
            S.stack[-1] = np.eye(3)
        else:
            S.projection = np.eye(3)
            S.ortho = None

    def glPushMatrix(self):
        S.stack.append(S.stack[-1].copy())

    def glPopMatrix(self):
        if len(S.stack) == 1:
            S.problems.append('the matrix stack is popped too often')
        else:
            S.stack.pop()

    def glTranslatef(self, x, y, z):
        mul(np.array([[1, 0, x], [0, 1, y], [0, 0, 1.0]]))

    def glScalef(self, x, y, z):
        mul(np.array([[x, 0, 0], [0, y, 0], [0, 0, 1.0]]))

    def glRotatef(self, angle, x, y, z):
        a = np.radians(angle) * (1 if z > 0 else -1)
        mul(np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.0]]))

    glTranslated, glScaled, glRotated = glTranslatef, glScalef, glRotatef

    def gluOrtho2D(self, left, right, bottom, top):
        S.ortho = (float(left), float(right), float(bottom), float(top))

    def glOrtho(self, left, right, bottom, top, near, far):
        S.ortho = (float(left), float(right), float(bottom), float(top))

    def glViewport(self, x, y, w, h):
        S.viewport = (x, y, w, h)

    def glGetIntegerv(self, what):
        if what == CONST['GL_VIEWPORT']:
            return np.array(S.viewport)
        return 0

    def glColor3f(self, red, green, blue):
        S.colour = (r(red), r(green), r(blue))

    def glColor3fv(self, c):
        self.glColor3f(*c)

    def glColor4f(self, red, green, blue, alpha):
        S.colour = (r(red), r(green), r(blue))

    def glEnable(self, what):
        if what == CONST['GL_TEXTURE_2D']:
            S.texturing = True

    def glDisable(self, what):
        if what == CONST['GL_TEXTURE_2D']:
            S.texturing = False

    def glGenTextures(self, n):
        t = S.new()
        S.textures[t] = None
        return t

    def glDeleteTextures(self, *a):
        ids = a[-1]
        for t in (ids if hasattr(ids, '__iter__') else [ids]):
            S.textures.pop(int(t), None)

    def glBindTexture(self, target, t):
        S.bound = int(t)

    def glTexImage2D(self, target, level, internal, w, h, border, fmt, kind, data):
        if data is None:
            S.textures[S.bound] = {'size': (w, h), 'target': True}
            return
        a = np.frombuffer(data if isinstance(data, (bytes, bytearray)) else np.ascontiguousarray(data).tobytes(), np.uint8)
        if len(a) != w * h * 4:
            S.problems.append(f'{len(a)} bytes for a texture of {w} by {h}')
            return
        a = a.reshape(h, w, 4)
        # text pictures carry their text in the last channel of their first row (see Surface)
        if a[0, 0, 3] == 254:
            n = int(a[0, 1, 3])
            S.textures[S.bound] = {'size': (w, h), 'text': bytes(a[1:, :, 3].reshape(-1)[:n]).decode('utf-8', 'replace')}
            return
        first = int(a[0, 0, 1]) + 256 * int(a[0, 0, 2])
        last = int(a[-1, 0, 1]) + 256 * int(a[-1, 0, 2])
        sheet = NAMES[int(a[0, 0, 0]) - 1]
        full = SHEETS[sheet][1] * SHEETS[sheet][3]
        if {first, last} != {0, full - 1} or w != SHEETS[sheet][0] * SHEETS[sheet][2]:
            S.problems.append(f'sheet {sheet} is not loaded as a whole')
        S.textures[S.bound] = {'size': (w, h), 'sheet': sheet, 'flipped': first > last}

    def glGetTexLevelParameteriv(self, target, level, what):
        t = S.textures.get(S.bound)
        return 0 if t is None else t['size'][0 if what == CONST['GL_TEXTURE_WIDTH'] else 1]

    def glTexCoord2f(self, x, y):
        S.texcoord = (float(x), float(y))

    def glTexCoord(self, x, y):
        S.texcoord = (float(x), float(y))

    def glBegin(self, mode):
        if S.begun is not None:
            S.problems.append('glBegin inside glBegin')
        S.begun = mode
        S.vertices = []

    def glVertex2f(self, x, y):
        S.vertices.append((S.texcoord, world(x, y)))

    glVertex2d = glVertex2i = glVertex2 = glVertex2f

    def glEnd(self):
        content = S.content()
        content.ortho = S.ortho
        v = S.vertices
        if S.begun == CONST['GL_QUADS']:
            tex = S.textures.get(S.bound) if S.texturing else None
            for i in range(0, len(v) - 3, 4):
                corners = []
                for (u, w_), pos in v[i:i + 4]:
                    if tex is None or 'sheet' not in tex:
                        corners.append(((r(u), r(w_)), pos))
                    else:
                        up = (1 - w_) if tex['flipped'] else w_
                        corners.append(((r(u * tex['size'][0]), r(up * tex['size'][1])), pos))
                content.items.append(('quad', Quad(None if tex is None else tex.get('sheet'), corners, S.colour, None if tex is None else tex.get('text'))))
        elif S.begun == CONST['GL_LINES']:
            for i in range(0, len(v) - 1, 2):
                content.items.append(('line', (v[i][1], v[i + 1][1], S.colour)))
        elif S.begun in (CONST['GL_LINE_STRIP'], CONST['GL_LINE_LOOP']):
            for i in range(len(v) - 1):
                content.items.append(('line', (v[i][1], v[i + 1][1], S.colour)))
        else:
            S.problems.append('unknown primitive')
        S.begun = None
        S.vertices = []

    def glClear(self, mask):
        S.contents[S.fb['draw']] = Content(tuple(S.viewport))

    def glGenRenderbuffers(self, n):
        return S.new()

    def glRenderbufferStorage(self, target, fmt, w, h):
        if (w, h) != tuple(S.viewport[2:]):
            S.problems.append('a framebuffer of another size than the window')

    def glRenderbufferStorageMultisample(self, target, samples, fmt, w, h):
        self.glRenderbufferStorage(target, fmt, w, h)

    def glGenFramebuffers(self, n):
        return S.new()

    def glBindFramebuffer(self, target, fb):
        if target in (CONST['GL_FRAMEBUFFER'], CONST['GL_DRAW_FRAMEBUFFER']):
            S.fb['draw'] = int(fb)
        if target in (CONST['GL_FRAMEBUFFER'], CONST['GL_READ_FRAMEBUFFER']):
            S.fb['read'] = int(fb)

    def glDeleteFramebuffers(self, *a):
        ids = a[-1]
        for f in (ids if hasattr(ids, '__iter__') else [ids]):
            S.contents.pop(int(f), None)
            S.attached.pop(int(f), None)

    def glFramebufferTexture2D(self, target, point, kind, texture, level):
        S.attached[S.fb['draw']] = int(texture)

    def glBlitFramebuffer(self, *a):
        src, dst = tuple(map(int, a[:4])), tuple(map(int, a[4:8]))
        full = (0, 0, S.viewport[2], S.viewport[3])
        if src != full or dst != full:
            S.problems.append(f'a picture is copied from {src} to {dst}, the window is {full}')
        S.contents[S.fb['draw']] = S.contents.get(S.fb['read'])

    def glGetTexImage(self, target, level, fmt, kind):
        w, h = S.textures[S.bound]['size']
        fb = [f for f, t in S.attached.items() if t == S.bound]
        n = S.number(S.contents.get(fb[-1]) if fb else None)
        a = np.zeros((h, w, 3), np.uint8)
        a[..., 0] = n % 256
        a[..., 1] = n // 256
        a[..., 2] = (np.arange(h) % 251)[:, None]
        return a.tobytes()


CONST = {}


def names(repo):
    found = set()
    for d, _, files in os.walk(os.path.join(repo, 'factorio_sat')):
        for f in files:
            if f.endswith('.py'):
                with open(os.path.join(d, f), encoding='utf-8', errors='replace') as file:
                    found |= set(re.findall(r'\b(?:gl[A-Z]\w*|glu[A-Z]\w*|GL_\w+)\b', file.read()))
    return found | {n for n in dir(Functions) if n.startswith('gl')} | {
        'GL_MODELVIEW', 'GL_PROJECTION', 'GL_VIEWPORT', 'GL_TEXTURE_2D', 'GL_TEXTURE_WIDTH', 'GL_TEXTURE_HEIGHT', 'GL_QUADS', 'GL_LINES', 'GL_LINE_STRIP',
        'GL_LINE_LOOP', 'GL_FRAMEBUFFER', 'GL_DRAW_FRAMEBUFFER', 'GL_READ_FRAMEBUFFER', 'GL_TRUE', 'GL_FALSE'}


def module(name, **entries):
    m = types.ModuleType(name)
    m.__dict__.update(entries)
    sys.modules[name] = m
    return m


class Surface:
    def __init__(self, text):
        self.text = text

    def get_width(self):
        return 8 * len(self.text) + 4

    def get_height(self):
        return 20

    def get_size(self):
        return self.get_width(), self.get_height()


class Font:
    def __init__(self, *a):
        pass

    def size(self, text):
        return Surface(text).get_size()

    def render(self, text, *a):
        return Surface(text)


def array3d(surface):
    w, h = surface.get_size()
    a = np.zeros((h, w, 3), np.uint8)
    data = surface.text.encode()[:255]
    a[0, 0] = 254
    a[0, 1] = len(data)
    flat = np.zeros((h - 1) * w, np.uint8)
    flat[:len(data)] = list(data)
    a[1:] = flat.reshape(h - 1, w)[..., None]
    return a.transpose(1, 0, 2)


class Script:
    """Keys to press: a list of (frames to wait, key), then the window is closed."""
    keys = []
    wait = 0
    frames = 0
    limit = 20000


def events():
    Script.frames += 1
    if Script.frames > Script.limit:
        raise RuntimeError('the program does not end')
    if Script.keys is None:
        return []
    if Script.wait > 0:
        Script.wait -= 1
        return []
    if Script.keys:
        wait, key = Script.keys.pop(0)
        Script.wait = wait
        if key is None:
            return []
        S.shown.append(('key', key))
        return [types.SimpleNamespace(type=LOCALS['KEYDOWN'], key=LOCALS[key])]
    return [types.SimpleNamespace(type=LOCALS['QUIT'])]


LOCALS = {'QUIT': 256, 'KEYDOWN': 768, 'KEYUP': 769, 'K_i': 105, 'K_k': 107, 'K_s': 115, 'K_e': 101, 'K_q': 113, 'K_x': 120, 'OPENGL': 2, 'DOUBLEBUF': 1 << 30, 'RESIZABLE': 16}


def set_mode(size, *a):
    if not S.modes:
        S.viewport = (0, 0, *size)
    S.modes.append(tuple(size))


def flip():
    S.shown.append(('frame', S.number(S.contents.get(0))))


class Stdin:
    def __init__(self):
        self.data = b''
        self.closed = False

    def write(self, b):
        self.data += bytes(b)
        return len(b)

    def flush(self):
        pass

    def close(self):
        self.closed = True


class Job:
    """ffmpeg-python's chain, as far as it is used."""

    def __init__(self, **kw):
        self.kw = kw

    def output(self, filename, **kw):
        return Job(**self.kw, filename=filename, out=kw)

    def overwrite_output(self):
        return Job(**self.kw, overwrite=True)

    def run_async(self, **kw):
        p = types.SimpleNamespace(stdin=Stdin())
        p.wait = lambda: S.exports.append((self.kw['filename'], self.kw['out'], self.kw['input'], p.stdin.data, self.kw.get('overwrite', False), p.stdin.closed)) or 0
        return p

    def run(self, input=b'', **kw):
        S.exports.append((self.kw['filename'], self.kw['out'], self.kw['input'], bytes(input), self.kw.get('overwrite', False), True))


def install(repo):
    """Put the stand-ins in place of the real modules, before factorio_sat.render is imported."""
    all_names = sorted(names(repo))
    functions = Functions()
    gl = {}
    for i, n in enumerate(all_names):
        if n.startswith('GL_'):
            gl[n] = CONST[n] = {'GL_TRUE': 1, 'GL_FALSE': 0}.get(n, (1 << (10 + i % 20)) if n.endswith('_BIT') else 100000 + i)
        elif hasattr(functions, n):
            gl[n] = getattr(functions, n)
        else:
            def nothing(*a, _name=n, **k):
                S.unknown.add(_name)
                return 0
            gl[n] = nothing
    root = module('OpenGL', ERROR_CHECKING=True)
    root.__path__ = []
    root.GL = module('OpenGL.GL', __all__=sorted(gl), **gl)
    root.GLU = module('OpenGL.GLU', __all__=sorted(gl), **gl)
    clock = lambda: types.SimpleNamespace(tick=lambda *a: 16, get_fps=lambda: 60.0, get_time=lambda: 16)
    nothing = lambda *a, **k: None
    module('pygame.locals', __all__=sorted(LOCALS), **LOCALS)
    pg = module('pygame', init=nothing, quit=nothing, locals=sys.modules['pygame.locals'], **LOCALS,
                display=types.SimpleNamespace(init=nothing, set_mode=set_mode, set_caption=lambda t, *a: S.captions.append(t), flip=flip, gl_set_attribute=nothing, quit=nothing),
                font=types.SimpleNamespace(init=nothing, Font=Font, quit=nothing),
                time=types.SimpleNamespace(Clock=clock, get_ticks=lambda: 0),
                event=types.SimpleNamespace(get=events, pump=nothing),
                surfarray=types.SimpleNamespace(array3d=array3d))
    pg.__path__ = []
    module('ffmpeg', input=lambda name, **kw: Job(input=dict(kw, name=name)))
    from PIL import Image
    Image.open = lambda f, *a, **k: image(f)
