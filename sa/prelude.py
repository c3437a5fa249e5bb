"""Library functions stated in terms of other modelled ones. Interpreted by the analyser (never imported or run); the docstring of a function lists the names it models."""
import math
import torch


def cumprod(input, dim, dtype=None):
    "torch.cumprod"
    out = []
    acc = None
    for x in torch.unbind(input, dim):
        acc = x if acc is None else acc * x
        out.append(acc)
    return torch.stack(out, dim)


def addmm(input, mat1, mat2, beta=1, alpha=1):
    "torch.addmm"
    return beta * input + alpha * (mat1 @ mat2)


def unflatten(input, dim, sizes):
    "torch.unflatten"
    d = dim % input.dim()
    return input.reshape(tuple(input.shape[:d]) + tuple(sizes) + tuple(input.shape[d + 1:]))


def narrow(input, dim, start, length):
    "torch.narrow"
    return input[(slice(None),) * (dim % input.dim()) + (slice(start, start + length),)]


def vstack(tensors):
    "torch.vstack torch.row_stack"
    return torch.cat([torch.atleast_2d(t) for t in tensors], 0)


def column_stack(tensors):
    "torch.column_stack"
    return torch.cat([t[:, None] if t.dim() == 1 else t for t in tensors], 1)


def dstack(tensors):
    "torch.dstack"
    return torch.cat([t[None, :, None] if t.dim() == 1 else t[..., None] if t.dim() == 2 else t for t in tensors], 2)


def chunk(input, chunks, dim=0):
    "torch.chunk"
    n = input.shape[dim]
    return torch.split(input, -(-n // chunks), dim)


def tensor_split(input, indices_or_sections, dim=0):
    "torch.tensor_split"
    n = input.shape[dim]
    if isinstance(indices_or_sections, int):
        s = indices_or_sections
        return torch.split(input, [n // s + (1 if i < n % s else 0) for i in range(s)], dim)
    cuts = [0] + [min(i, n) for i in indices_or_sections] + [n]
    return torch.split(input, [cuts[i + 1] - cuts[i] for i in range(len(cuts) - 1)], dim)


def fmod(input, other):
    "torch.fmod"
    return input - torch.trunc(input / other) * other


def div(input, other, rounding_mode=None):
    "torch.div torch.divide"
    if rounding_mode is None:
        return input / other
    if rounding_mode == 'floor':
        return input // other
    return torch.trunc(input / other)


def log1p(input):
    "torch.log1p"
    return torch.log(1 + input)


def expm1(input):
    "torch.expm1"
    return torch.exp(input) - 1


def sigmoid(input):
    "torch.sigmoid torch.special.expit torch.nn.functional.sigmoid"
    return 1 / (1 + torch.exp(-input))


def softplus(input):
    "torch.nn.functional.softplus"
    return torch.log(1 + torch.exp(input))


def sinc(input):
    "torch.sinc torch.special.sinc"
    zero = input == 0
    safe = torch.where(zero, torch.ones_like(input), input)
    return torch.where(zero, torch.ones_like(input), torch.sin(math.pi * safe) / (math.pi * safe))


def hypot(input, other):
    "torch.hypot"
    return torch.sqrt(input * input + other * other)


def frac(input):
    "torch.frac"
    return input - torch.trunc(input)


def addcdiv(input, tensor1, tensor2, value=1):
    "torch.addcdiv"
    return input + value * tensor1 / tensor2


def copysign(input, other):
    "torch.copysign"
    return torch.where(other < 0, -input.abs(), input.abs())


def count_nonzero(input, dim=None):
    "torch.count_nonzero"
    return (input != 0).sum() if dim is None else (input != 0).sum(dim)


def one_hot(tensor, num_classes):
    "torch.nn.functional.one_hot"
    return (tensor.unsqueeze(-1) == torch.arange(num_classes, device=tensor.device)).long()


def tril(input, diagonal=0):
    "torch.tril"
    r = torch.arange(input.shape[-2], device=input.device)
    c = torch.arange(input.shape[-1], device=input.device)
    return torch.where(c[None, :] - r[:, None] <= diagonal, input, torch.zeros_like(input))


def triu(input, diagonal=0):
    "torch.triu"
    r = torch.arange(input.shape[-2], device=input.device)
    c = torch.arange(input.shape[-1], device=input.device)
    return torch.where(c[None, :] - r[:, None] >= diagonal, input, torch.zeros_like(input))


def relu(input, inplace=False):
    "torch.relu torch.nn.functional.relu"
    return torch.clamp(input, min=0)


def mse_loss(input, target, reduction='mean'):
    "torch.nn.functional.mse_loss"
    d = (input - target) * (input - target)
    return d.mean() if reduction == 'mean' else d.sum() if reduction == 'sum' else d


def l1_loss(input, target, reduction='mean'):
    "torch.nn.functional.l1_loss"
    d = (input - target).abs()
    return d.mean() if reduction == 'mean' else d.sum() if reduction == 'sum' else d


def cosine_similarity(x1, x2, dim=1, eps=1e-8):
    "torch.cosine_similarity torch.nn.functional.cosine_similarity"
    return (x1 * x2).sum(dim) / (x1.norm(dim=dim).clamp(min=eps) * x2.norm(dim=dim).clamp(min=eps))


def cdist(x1, x2, p=2.0):
    "torch.cdist"
    return torch.norm(x1[..., :, None, :] - x2[..., None, :, :], dim=-1)


def pairwise_distance(x1, x2, p=2.0, eps=1e-6, keepdim=False):
    "torch.pairwise_distance torch.nn.functional.pairwise_distance"
    return torch.norm(x1 - x2 + eps, dim=-1, keepdim=keepdim)


def pad(input, pad, mode='constant', value=None):
    "torch.nn.functional.pad"
    v = 0 if value is None else value
    out = input
    for j in range(len(pad) // 2):
        d = out.dim() - 1 - j
        before, after = pad[2 * j], pad[2 * j + 1]
        parts = []
        if before > 0:
            parts.append(torch.full(tuple(out.shape[:d]) + (before,) + tuple(out.shape[d + 1:]), v, dtype=out.dtype, device=out.device))
        parts.append(out)
        if after > 0:
            parts.append(torch.full(tuple(out.shape[:d]) + (after,) + tuple(out.shape[d + 1:]), v, dtype=out.dtype, device=out.device))
        out = torch.cat(parts, d) if len(parts) > 1 else out
    return out


def var(input, dim=None, unbiased=True, keepdim=False, correction=None):
    "torch.var"
    c = (1 if unbiased else 0) if correction is None else correction
    if dim is None:
        d = input - input.mean()
        return (d * d).sum() / (input.numel() - c)
    d = input - input.mean(dim=dim, keepdim=True)
    return (d * d).sum(dim=dim, keepdim=keepdim) / (input.shape[dim] - c)


def std(input, dim=None, unbiased=True, keepdim=False, correction=None):
    "torch.std"
    return torch.sqrt(torch.var(input, dim, unbiased, keepdim, correction))


def logsumexp(input, dim, keepdim=False):
    "torch.logsumexp"
    return torch.log(torch.exp(input).sum(dim=dim, keepdim=keepdim))


def softmax(input, dim=None, dtype=None):
    "torch.softmax torch.nn.functional.softmax"
    x = torch.exp(input)
    return x / x.sum(dim=dim, keepdim=True)


def meshgrid(*tensors, indexing='ij'):
    "torch.meshgrid"
    ts = list(tensors[0]) if len(tensors) == 1 and isinstance(tensors[0], (list, tuple)) else list(tensors)
    if indexing == 'xy' and len(ts) >= 2:
        ts[0], ts[1] = ts[1], ts[0]
    shape = [t.shape[0] for t in ts]
    out = []
    for i, t in enumerate(ts):
        out.append(t.reshape([1] * i + [-1] + [1] * (len(ts) - i - 1)).expand(*shape))
    if indexing == 'xy' and len(ts) >= 2:
        out = [g.transpose(0, 1) for g in out]
        out[0], out[1] = out[1], out[0]
    return tuple(out)


def cartesian_prod(*tensors):
    "torch.cartesian_prod"
    return torch.stack([g.reshape(-1) for g in torch.meshgrid(*tensors, indexing='ij')], -1)


def block_diag(*tensors):
    "torch.block_diag"
    rows = sum([t.shape[0] for t in tensors])
    cols = sum([t.shape[1] for t in tensors])
    out = torch.zeros(rows, cols, dtype=tensors[0].dtype, device=tensors[0].device)
    r = 0
    c = 0
    for t in tensors:
        out[r:r + t.shape[0], c:c + t.shape[1]] = t
        r = r + t.shape[0]
        c = c + t.shape[1]
    return out


def kron(input, other):
    "torch.kron"
    p = input[:, None, :, None] * other[None, :, None, :]
    return p.reshape(input.shape[0] * other.shape[0], input.shape[1] * other.shape[1])


def broadcast_shapes(*shapes):
    "torch.broadcast_shapes"
    n = max([len(s) for s in shapes])
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0 and s[j] != 1:
                d = s[j]
        out.append(d)
    return tuple(out)


def result_type(tensor1, tensor2):
    "torch.result_type"
    return (tensor1 + tensor2).dtype


def promote_types(type1, type2):
    "torch.promote_types"
    return (torch.zeros(1, dtype=type1) + torch.zeros(1, dtype=type2)).dtype


def chain_matmul(*matrices):
    "torch.chain_matmul"
    ms = list(matrices[0]) if len(matrices) == 1 else list(matrices)
    out = ms[0]
    for m in ms[1:]:
        out = out @ m
    return out


def multi_dot(tensors):
    "torch.linalg.multi_dot"
    out = tensors[0]
    for m in tensors[1:]:
        out = out @ m
    return out


def matrix_power(input, n):
    "torch.matrix_power torch.linalg.matrix_power"
    out = torch.eye(input.shape[-1], dtype=input.dtype, device=input.device).expand(input.shape)
    m = input if n >= 0 else torch.linalg.inv(input)
    for _ in range(abs(n)):
        out = out @ m
    return out


def tensordot(a, b, dims=2):
    "torch.tensordot"
    if isinstance(dims, int):
        da = list(range(a.dim() - dims, a.dim()))
        db = list(range(dims))
    else:
        da = [d % a.dim() for d in ([dims[0]] if isinstance(dims[0], int) else dims[0])]
        db = [d % b.dim() for d in ([dims[1]] if isinstance(dims[1], int) else dims[1])]
    letters = 'abcdefghijklmnopqrstuvwxyz'
    la = [letters[i] for i in range(a.dim())]
    lb = [letters[a.dim() + i] for i in range(b.dim())]
    out = [c for i, c in enumerate(la) if i not in da] + [c for i, c in enumerate(lb) if i not in db]
    for i, j in zip(da, db):
        lb[j] = la[i]
    return torch.einsum(''.join(la) + ',' + ''.join(lb) + '->' + ''.join(out), a, b)


def fmax(input, other):
    "torch.fmax"
    return torch.where(torch.isnan(input), other, torch.where(torch.isnan(other), input, torch.maximum(input, other)))


def fmin(input, other):
    "torch.fmin"
    return torch.where(torch.isnan(input), other, torch.where(torch.isnan(other), input, torch.minimum(input, other)))


def linalg_diagonal(A, offset=0, dim1=-2, dim2=-1):
    "torch.linalg.diagonal"
    return torch.diagonal(A, offset, dim1, dim2)


def matrix_norm(A, ord='fro', dim=(-2, -1), keepdim=False, dtype=None):
    "torch.linalg.matrix_norm"
    if ord != 'fro':
        return torch.unmodelled_matrix_norm()
    return torch.sqrt((A * A).sum(dim=dim, keepdim=keepdim))


def takewhile(predicate, iterable):
    "itertools.takewhile"
    out = []
    for x in iterable:
        if not predicate(x):
            break
        out.append(x)
    return out


def dropwhile(predicate, iterable):
    "itertools.dropwhile"
    out = []
    for x in iterable:
        if out or not predicate(x):
            out.append(x)
    return out


def filterfalse(predicate, iterable):
    "itertools.filterfalse"
    return [x for x in iterable if not (x if predicate is None else predicate(x))]


def accumulate_counts(iterable=()):
    "collections.Counter"
    out = {}
    for x in iterable:
        out[x] = out.get(x, 0) + 1
    return out


def linspace(start, end, steps, dtype=None, device=None):
    "torch.linspace"
    return torch.tensor([start + (end - start) * (i / (steps - 1)) if steps > 1 else start for i in range(steps)], dtype=torch.get_default_dtype() if dtype is None else dtype, device=device)


def scatter(input, dim, index, src):
    "torch.scatter"
    d = dim % input.dim()
    n = input.shape[d]
    pos = torch.arange(n, device=input.device).reshape([1] * d + [-1] + [1] * (input.dim() - d - 1))
    out = input
    for j in range(index.shape[d]):
        ix = torch.narrow(index, d, j, 1)
        v = torch.narrow(src, d, j, 1) if torch.is_tensor(src) else torch.full_like(ix, src, dtype=input.dtype)
        out = torch.where(pos == ix, v, out)
    return out


def scatter_add(input, dim, index, src):
    "torch.scatter_add"
    d = dim % input.dim()
    n = input.shape[d]
    pos = torch.arange(n, device=input.device).reshape([1] * d + [-1] + [1] * (input.dim() - d - 1))
    out = input
    for j in range(index.shape[d]):
        ix = torch.narrow(index, d, j, 1)
        v = torch.narrow(src, d, j, 1)
        out = out + torch.where(pos == ix, v, torch.zeros_like(v))
    return out


def index_fill(input, dim, index, value):
    "torch.index_fill"
    out = input.clone()
    torch.transpose(out, 0, dim)[index] = value
    return out


def index_copy(input, dim, index, source):
    "torch.index_copy"
    out = input.clone()
    torch.transpose(out, 0, dim)[index] = torch.transpose(source, 0, dim)
    return out


def index_add(input, dim, index, source, alpha=1):
    "torch.index_add"
    out = input.clone()
    o = torch.transpose(out, 0, dim)
    s = torch.transpose(source, 0, dim)
    for j in range(s.shape[0]):
        o[index[j]] += alpha * s[j]
    return out


def nan_to_num(input, nan=0.0, posinf=None, neginf=None):
    "torch.nan_to_num"
    out = torch.where(torch.isnan(input), torch.full_like(input, nan), input)
    big = torch.finfo(input.dtype).max
    out = torch.where(out == math.inf, torch.full_like(input, big if posinf is None else posinf), out)
    return torch.where(out == -math.inf, torch.full_like(input, -big if neginf is None else neginf), out)


def Size(x=()):
    "torch.Size"
    return tuple(x)


def logit(input):
    "torch.logit"
    return torch.log(input / (1 - input))


def log2(input):
    "torch.log2"
    return torch.log(input) / math.log(2)


def log10(input):
    "torch.log10"
    return torch.log(input) / math.log(10)


def exp2(input):
    "torch.exp2"
    return 2 ** input


def heaviside(input, values):
    "torch.heaviside"
    return torch.where(input == 0, values, (input > 0).to(input.dtype))


def diff(input, n=1, dim=-1):
    "torch.diff"
    return torch.narrow(input, dim, 1, input.shape[dim] - 1) - torch.narrow(input, dim, 0, input.shape[dim] - 1)


def ger(input, vec2):
    "torch.ger"
    return torch.outer(input, vec2)


def dist(input, other, p=2):
    "torch.dist"
    return torch.norm(input - other)


def rot90(input, k=1, dims=(0, 1)):
    "torch.rot90"
    out = input
    for _ in range(k % 4):
        out = torch.flip(torch.transpose(out, dims[0], dims[1]), (dims[0],))
    return out


def select(input, dim, index):
    "torch.select"
    return torch.narrow(input, dim, index % input.shape[dim], 1).squeeze(dim)


def take(input, index):
    "torch.take"
    return input.reshape(-1)[index]



def masked_scatter(input, mask, source):
    "torch.masked_scatter"
    out = input.clone()
    out[mask.expand_as(input)] = source
    return out


def float_power(input, exponent):
    "torch.float_power"
    return torch.pow(input.to(torch.float64), exponent)
