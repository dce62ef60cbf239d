from contextlib import contextmanager


class BadNeverCleared:
    busy = False

    def evaluate(self):
        if self.busy:
            raise ValueError('circular')
        self.busy = True
        v = eval(self.code)
        self.busy = False
        return v


class BadUnmarked:
    busy = False

    def evaluate(self):
        if self.busy:
            raise ValueError('circular')
        try:
            v = eval(self.code)
        finally:
            self.busy = False
        return v


class BadNarrow:
    busy = False

    def evaluate(self):
        if self.busy:
            raise ValueError('circular')
        self.busy = True
        try:
            v = eval(self.code)
        except ValueError:
            self.busy = False
            raise
        self.busy = False
        return v


class BadUnchecked:
    busy = False

    def evaluate(self):
        self.busy = True
        try:
            return eval(self.code)
        finally:
            self.busy = False


class BadEarly:
    busy = False

    def evaluate(self):
        if self.busy:
            raise ValueError('circular')
        self.busy = True
        if not self.code:
            return None
        try:
            return eval(self.code)
        finally:
            self.busy = False


class GoodFinally:
    busy = False

    def evaluate(self):
        if self.busy:
            raise ValueError('circular')
        try:
            self.busy = True
            return eval(self.code)
        finally:
            self.busy = False


class GoodHelpers:
    busy = False

    def _mark(self, v):
        self._set(v)

    def _run(self):
        return eval(self.code)

    def evaluate(self):
        was = self.busy
        if was:
            raise ValueError('circular')
        self.busy = not was
        try:
            v = self._run()
        except BaseException:
            self.busy = was
            raise
        self.busy = False
        return v


class GoodManager:
    busy = False

    @contextmanager
    def _marked(self):
        if self.busy:
            raise ValueError('circular')
        self.busy = True
        try:
            yield
        finally:
            self.busy = False

    def evaluate(self):
        with self._marked():
            return eval(self.code)
