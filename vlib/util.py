"""Small helpers shared by the checks."""
import contextlib

import torch


def set_param(module, name, value):
    """Replace a parameter/buffer by a given tensor (possibly symbolic, possibly requiring grad)."""
    module._parameters.pop(name, None)
    module._buffers.pop(name, None)
    object.__setattr__(module, name, value)


@contextlib.contextmanager
def noise(cx, log):
    """Every normal sample drawn inside is an input of the case (mean + std * symbol)."""
    from . import symtensor as S

    def draw(shape, dtype, mean=0.0, std=1.0):
        z = cx.inp(f"noise{len(log)}", tuple(shape), dtype or torch.get_default_dtype(), -3.0, 3.0)
        log.append(z)
        return mean + std * z

    def normal(mean=0.0, std=1.0, size=None, *, generator=None, out=None, dtype=None, device=None, **k):
        if isinstance(mean, torch.Tensor) or isinstance(std, torch.Tensor):
            t = mean if isinstance(mean, torch.Tensor) else std
            shape = torch.broadcast_shapes(*(v.shape for v in (mean, std) if isinstance(v, torch.Tensor)))
            return draw(shape, t.dtype, mean, std)
        return draw(size, dtype, mean, std)

    def randn(*size, dtype=None, device=None, generator=None, requires_grad=False, **k):
        if len(size) == 1 and isinstance(size[0], (tuple, list, torch.Size)):
            size = size[0]
        if dtype is not None and dtype.is_complex:
            raise S.Unsupported("complex randn")
        return draw(size, dtype)

    def randn_like(t, dtype=None, **k):
        return draw(t.shape, dtype or t.dtype)

    sv = torch.normal, torch.randn, torch.randn_like
    torch.normal, torch.randn, torch.randn_like = normal, randn, randn_like
    try:
        yield
    finally:
        torch.normal, torch.randn, torch.randn_like = sv
