#!/opt/venv/bin/python
"""Development aid, not part of any check: is every torch operation that a rewrite of the code may use understood by the engine,
and does its symbolic result agree with torch's (the trace validation of run_case)?  optest.py [NAME ...]"""
import os
import signal
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("PYOPTMAT_REPO", "/repo"), HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import torch

from vlib import harness

sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
F=torch.nn.functional
ops={
'allclose':lambda x,y:torch.tensor(1.0) if torch.allclose(x,y) else torch.tensor(2.0),
'isclose':lambda x,y:torch.where(torch.isclose(x,y),x,y),
'equal':lambda x,y:torch.tensor(1.0) if torch.equal(x,y) else torch.tensor(2.0),
'addcmul':lambda x,y:torch.addcmul(x,y,y,value=2.0),
'addcdiv':lambda x,y:torch.addcdiv(x,x,y,value=2.0),
'addmm':lambda x,y:torch.addmm(x,y,y),
'baddbmm':lambda x,y:torch.baddbmm(x[None],y[None],x[None]),
'addmv':lambda x,y:torch.addmv(x[0],y,x[1]),
'addr':lambda x,y:torch.addr(x,y[0],y[1]),
'outer':lambda x,y:torch.outer(x[0],y[1]),
'dot':lambda x,y:torch.dot(x[0],y[1]),
'vdot':lambda x,y:torch.vdot(x[0],y[1]),
'inner':lambda x,y:torch.inner(x,y),
'tensordot':lambda x,y:torch.tensordot(x,y,dims=1),
'kron':lambda x,y:torch.kron(x,y),
'einsum':lambda x,y:torch.einsum('ij,jk->ik',x,y),
'matmul':lambda x,y:x@y,
'mv':lambda x,y:torch.mv(x,y[0]),
'bmm':lambda x,y:torch.bmm(x[None],y[None]),
'vecdot':lambda x,y:torch.linalg.vecdot(x,y),
'cross':lambda x,y:torch.linalg.cross(torch.cat([x[0],x[1,:1]]),torch.cat([y[0],y[1,:1]])),
'multidot':lambda x,y:torch.linalg.multi_dot([x,y,x]),
'inv':lambda x,y:torch.linalg.inv(x),
'inverse':lambda x,y:torch.inverse(x),
'solve':lambda x,y:torch.linalg.solve(x,y),
'solvevec':lambda x,y:torch.linalg.solve(x,y[0]),
'det':lambda x,y:torch.linalg.det(x),
'det2':lambda x,y:torch.det(x),
'solve_tri':lambda x,y:torch.linalg.solve_triangular(x.triu(),y,upper=True),
'tri_solve':lambda x,y:torch.triangular_solve(y,x.tril(),upper=False)[0],
'matrix_power':lambda x,y:torch.linalg.matrix_power(x,3),
'lu_factor':lambda x,y:torch.linalg.lu_solve(*torch.linalg.lu_factor(x),y),
'norm':lambda x,y:torch.linalg.norm(x,dim=-1),
'norm2':lambda x,y:torch.norm(x),
'norm1':lambda x,y:torch.linalg.norm(x,ord=1,dim=-1),
'norminf':lambda x,y:torch.linalg.norm(x,ord=float('inf'),dim=-1),
'vnorm':lambda x,y:torch.linalg.vector_norm(x,dim=0),
'tnorm':lambda x,y:x.norm(dim=1,keepdim=True),
'dist':lambda x,y:torch.dist(x,y),
'std':lambda x,y:torch.std(x,dim=0),
'var':lambda x,y:torch.var(x,dim=0,unbiased=False),
'var_mean':lambda x,y:torch.var_mean(x,dim=0)[0],
'mean':lambda x,y:x.mean(-1),
'sum':lambda x,y:x.sum((0,1)),
'prod':lambda x,y:x.prod(0),
'nansum':lambda x,y:torch.nansum(x),
'nanmean':lambda x,y:torch.nanmean(x),
'logsumexp':lambda x,y:torch.logsumexp(x,0),
'softmax':lambda x,y:torch.softmax(x,0),
'cumsum':lambda x,y:torch.cumsum(x,0),
'cumprod':lambda x,y:torch.cumprod(x,0),
'cummax':lambda x,y:torch.cummax(x,0)[0],
'cummin':lambda x,y:torch.cummin(x,0)[0],
'max':lambda x,y:torch.max(x,0)[0],
'maxfull':lambda x,y:torch.max(x),
'min':lambda x,y:torch.min(x,dim=-1).values,
'amax':lambda x,y:torch.amax(x,0),
'amin':lambda x,y:torch.amin(x,(0,1)),
'aminmax':lambda x,y:torch.aminmax(x,dim=0)[0],
'maximum':torch.maximum,'minimum':torch.minimum,'fmax':torch.fmax,'fmin':torch.fmin,
'max2':lambda x,y:torch.max(x,y),
'median':lambda x,y:torch.median(x.reshape(-1)[:3]),
'sort':lambda x,y:torch.sort(x,0)[0],
'argsort':lambda x,y:x.reshape(-1)[torch.argsort(x.reshape(-1)[:3])],
'topk':lambda x,y:torch.topk(x,1,dim=0)[0],
'argmax':lambda x,y:torch.argmax(x,0)*1.0,
'argmin':lambda x,y:torch.argmin(x,0)*1.0,
'any':lambda x,y:torch.any(x>y)*1.0,
'all':lambda x,y:torch.all(x>y,dim=0)*1.0,
'countnz':lambda x,y:torch.count_nonzero(x>y)*1.0,
'sumbool':lambda x,y:torch.sum(x>y)*1.0,
'sumbool0':lambda x,y:x[0]*torch.sum(x>y,0),
'lerp':lambda x,y:torch.lerp(x,y,0.3),
'lerpt':lambda x,y:torch.lerp(x,y,y),
'clamp':lambda x,y:torch.clamp(x,0,1),
'clampt':lambda x,y:torch.clamp(x,min=y),
'clip':lambda x,y:torch.clip(x,-1,1),
'clamp_min':lambda x,y:torch.clamp_min(x,0.5),
'relu':lambda x,y:torch.relu(x),
'relu2':lambda x,y:F.relu(x),
'leaky':lambda x,y:F.leaky_relu(x,0.1),
'hardtanh':lambda x,y:F.hardtanh(x),
'threshold':lambda x,y:F.threshold(x,0.1,20.0),
'heaviside':lambda x,y:torch.heaviside(x,torch.tensor(0.5)),
'sign':lambda x,y:torch.sign(x),'sgn':lambda x,y:torch.sgn(x),
'copysign':lambda x,y:torch.copysign(x,y),
'abs':lambda x,y:x.abs(),'absabs':lambda x,y:torch.absolute(x),
'neg':lambda x,y:-x,'negative':lambda x,y:torch.negative(x),
'reciprocal':lambda x,y:torch.reciprocal(x),
'square':lambda x,y:torch.square(x),
'pow3':lambda x,y:x.pow(3),'powf':lambda x,y:torch.pow(x.abs(),0.5),
'powt':lambda x,y:torch.pow(x.abs()+1,y),'rpow':lambda x,y:2.0**x,
'fpow':lambda x,y:torch.float_power(x.abs()+1,y),
'sqrt':lambda x,y:(x*x+1).sqrt(),'rsqrt':lambda x,y:torch.rsqrt(x*x+1),
'exp':lambda x,y:x.exp(),'expm1':lambda x,y:torch.expm1(x),'exp2':lambda x,y:torch.exp2(x),
'log':lambda x,y:(x*x+1).log(),'log1p':lambda x,y:torch.log1p(x*x),'log2':lambda x,y:torch.log2(x*x+1),'log10':lambda x,y:torch.log10(x*x+1),
'xlogy':lambda x,y:torch.xlogy(x,y*y+1),
'logaddexp':lambda x,y:torch.logaddexp(x,y),
'tanh':lambda x,y:torch.tanh(x),'sigmoid':lambda x,y:torch.sigmoid(x),'logit':lambda x,y:torch.logit(torch.sigmoid(x)),
'softplus':lambda x,y:F.softplus(x),'sinh':lambda x,y:torch.sinh(x),'cosh':lambda x,y:torch.cosh(x),
'sin':lambda x,y:torch.sin(x),'cos':lambda x,y:torch.cos(x),
'hypot':lambda x,y:torch.hypot(x,y),
'where':lambda x,y:torch.where(x>0,x,y),'wheres':lambda x,y:torch.where(x>0,x,0.0),
'masked_fill':lambda x,y:x.masked_fill(x>y,3.0),
'masked_select':lambda x,y:torch.masked_select(x,x>y).sum(),
'masked_scatter':lambda x,y:x.masked_scatter(x>y,y),
'mask_set':lambda x,y:(lambda z:(z.__setitem__(z>0,1.5),z)[1])(x.clone()),
'mask_get':lambda x,y:x[x>y].sum(),
'nonzero':lambda x,y:x[torch.nonzero(x[:,0]>0)[:,0]].sum(),
'nan_to_num':lambda x,y:torch.nan_to_num(x/y),
'isnan':lambda x,y:torch.where(torch.isnan(x),y,x),
'isfinite':lambda x,y:torch.where(torch.isfinite(x),y,x),
'gather':lambda x,y:torch.gather(x,0,torch.tensor([[1,0],[0,0]])),
'take_along':lambda x,y:torch.take_along_dim(x,torch.tensor([[1,0],[0,0]]),0),
'index_select':lambda x,y:x.index_select(0,torch.tensor([1,0])),
'index_add':lambda x,y:x.index_add(0,torch.tensor([1,0]),y),
'index_copy':lambda x,y:x.index_copy(0,torch.tensor([1,0]),y),
'index_put':lambda x,y:x.index_put((torch.tensor([1,0]),),y),
'index_fill':lambda x,y:x.index_fill(0,torch.tensor([1]),2.0),
'scatter':lambda x,y:x.scatter(0,torch.tensor([[1,0]]),y[:1]),
'scatter_reduce max':lambda x,y:x.scatter_reduce(0,torch.tensor([[0,1],[0,0]]),y,'amax'),
'scatter_reduce min new':lambda x,y:x.scatter_reduce(0,torch.tensor([[0,1],[0,0]]),y,'amin',include_self=False),
'scatter_reduce mean':lambda x,y:x.scatter_reduce(0,torch.tensor([[0,1],[0,0]]),y,'mean',include_self=False),
'scatter_reduce sum':lambda x,y:x.scatter_reduce(1,torch.tensor([[0,1],[0,0]]),y,'sum'),
'scatter_reduce grad':lambda x,y:(lambda z:torch.autograd.grad((z.scatter_reduce(0,torch.tensor([[0,1],[0,0]]),y,'amax')*y).sum(),z)[0])(x.detach().clone().requires_grad_(True)),
'scatter_add':lambda x,y:x.scatter_add(0,torch.tensor([[1,0]]),y[:1]),
'take':lambda x,y:torch.take(x,torch.tensor([3,0])),
'roll':lambda x,y:torch.roll(x,1,0),'flip':lambda x,y:torch.flip(x,[0]),'fliplr':lambda x,y:torch.fliplr(x),
'rot90':lambda x,y:torch.rot90(x),
'stack':lambda x,y:torch.stack([x,y],1),'cat':lambda x,y:torch.cat([x,y],1),'hstack':lambda x,y:torch.hstack([x,y]),'vstack':lambda x,y:torch.vstack([x,y]),'column_stack':lambda x,y:torch.column_stack([x,y]),'block_diag':lambda x,y:torch.block_diag(x,y),
'split':lambda x,y:torch.split(x,1,0)[1],'chunk':lambda x,y:torch.chunk(x,2,1)[0],'unbind':lambda x,y:torch.unbind(x)[1],'tensor_split':lambda x,y:torch.tensor_split(x,2)[1],
'repeat':lambda x,y:x.repeat(2,1),'rep_int':lambda x,y:x.repeat_interleave(2,0),'tile':lambda x,y:torch.tile(x,(2,)),'expand':lambda x,y:x[None].expand(3,2,2),'bto':lambda x,y:torch.broadcast_to(x,(3,2,2)),
'tril':lambda x,y:torch.tril(x),'triu':lambda x,y:torch.triu(x,1),'diag':lambda x,y:torch.diag(x),'diag_embed':lambda x,y:torch.diag_embed(x),'diagonal':lambda x,y:torch.diagonal(x,0,-2,-1),'diagflat':lambda x,y:torch.diagflat(x[0]),'trace':lambda x,y:torch.trace(x),'eye':lambda x,y:torch.eye(2)+x,
'diag_set':lambda x,y:(lambda z:(z.diagonal().copy_(y[0]),z)[1])(x.clone()),
'fill_diag':lambda x,y:x.clone().fill_diagonal_(0.0),
'dsc':lambda x,y:torch.diagonal_scatter(x,y[0]),'ssc':lambda x,y:torch.select_scatter(x,y[0],0,1),'slsc':lambda x,y:torch.slice_scatter(x,y[:1],0,0,1),
'movedim':lambda x,y:torch.movedim(x,0,1),'swapaxes':lambda x,y:x.swapaxes(0,1),'permute':lambda x,y:x.permute(1,0),'T':lambda x,y:x.T,'mT':lambda x,y:x.mT,
'ravel':lambda x,y:x.ravel(),'flatten':lambda x,y:x.flatten(),'unflatten':lambda x,y:x.flatten().unflatten(0,(2,2)),'squeeze':lambda x,y:x[None].squeeze(0),
'as_strided':lambda x,y:x.as_strided((2,),(3,)),'narrow':lambda x,y:x.narrow(0,0,1),'unfold':lambda x,y:x.unfold(0,2,1),
'pad':lambda x,y:F.pad(x,(1,0)),'padc':lambda x,y:F.pad(x,(0,0,1,0),value=2.0),
'diff':lambda x,y:torch.diff(x,dim=0),'gradient':lambda x,y:torch.gradient(x,dim=0)[0],'trapz':lambda x,y:torch.trapezoid(x,y,dim=0),'cumtrapz':lambda x,y:torch.cumulative_trapezoid(x,dim=0),
'linspace':lambda x,y:torch.linspace(0,1,2)*x,'lin_item':lambda x,y:torch.linspace(0,float(2),2)*x,
'zeros_like':lambda x,y:torch.zeros_like(x)+y,'full_like':lambda x,y:torch.full_like(x,2.0)+y,'new_zeros':lambda x,y:x.new_zeros(2)+y,'empty_like':lambda x,y:torch.empty_like(x).copy_(y),
'floor':lambda x,y:torch.floor(x),'ceil':lambda x,y:torch.ceil(x),'round':lambda x,y:torch.round(x),'trunc':lambda x,y:torch.trunc(x),'fmod':lambda x,y:torch.fmod(x,1.5),'remainder':lambda x,y:torch.remainder(x,1.5),'frac':lambda x,y:torch.frac(x),
'floordiv':lambda x,y:x//1.5,
'div_floor':lambda x,y:torch.div(x,1.5,rounding_mode='floor'),
'int':lambda x,y:x.int()*1.0,'long':lambda x,y:x.long()*1.0,
'float':lambda x,y:x.double(),
'bool':lambda x,y:x.bool()*1.0,
'logical_xor':lambda x,y:torch.logical_xor(x>0,y>0)*1.0,
'not':lambda x,y:(~(x>0))*x,
'and':lambda x,y:((x>0)&(y>0))*x,
'item':lambda x,y:torch.tensor(x[0,0].item())*y,
'tolist':lambda x,y:torch.tensor(x.tolist())*y,
'pyif':lambda x,y:x if x[0,0]>0 else y,
'pymax':lambda x,y:max(x[0,0],y[0,0]),
'pyfor':lambda x,y:sum(a for a in x),
'numpy':lambda x,y:torch.tensor(x.numpy())*y,
'histc':lambda x,y:torch.histc(x,2),
'bucketize':lambda x,y:torch.bucketize(x,torch.tensor([0.,1.]))*1.0,
'searchsorted':lambda x,y:torch.searchsorted(torch.tensor([0.,1.]),x)*1.0,
'unique':lambda x,y:torch.unique(x>0).sum()*1.0,
'vmap':lambda x,y:torch.vmap(lambda a,b:a*b+a.sum())(x,y),
'jacrev':lambda x,y:torch.func.jacrev(lambda a:(a*a).sum(0))(x),
'jacfwd':lambda x,y:torch.func.jacfwd(lambda a:(a*a).sum(0))(x),
'fgrad':lambda x,y:torch.func.grad(lambda a:(a*a*y).sum())(x),
'autograd':lambda x,y:(lambda z:torch.autograd.grad((z*z*y).sum(),z)[0])(x.detach().requires_grad_(True)),
'cond':lambda x,y:torch.cdist(x,y),
'cosine':lambda x,y:F.cosine_similarity(x,y,dim=0),
'mse':lambda x,y:F.mse_loss(x,y),'l1':lambda x,y:F.l1_loss(x,y),
'linear':lambda x,y:F.linear(x,y,x[0]),'bilinear':lambda x,y:F.bilinear(x,y,x[None]),
'conv1d':lambda x,y:F.conv1d(x[None],y[:,None],groups=2) ,
'avg_pool':lambda x,y:F.avg_pool1d(x,2),
'interp':lambda x,y:F.interpolate(x[None],scale_factor=2.0,mode='linear'),
'polyval':lambda x,y:torch.stack([x**i for i in range(3)]).sum(0),
'rev':lambda x,y:x[[1,0]],
'sub_':lambda x,y:x.clone().sub_(y).mul_(2).div_(3).add_(y,alpha=2).neg_(),
'rsub':lambda x,y:torch.rsub(x,y),
'true_divide':lambda x,y:torch.true_divide(x,y),
'cov':lambda x,y:torch.cov(x),
'quantile':lambda x,y:torch.quantile(x.reshape(-1)[:2],0.5),
'matrix_exp':lambda x,y:torch.linalg.matrix_exp(x),
'eigvals':lambda x,y:torch.linalg.eigvalsh(x+x.T),
'qr':lambda x,y:torch.linalg.qr(x)[0],
'cholesky':lambda x,y:torch.linalg.cholesky(x@x.T+torch.eye(2)),
'lstsq':lambda x,y:torch.linalg.lstsq(x,y)[0],
'pinv':lambda x,y:torch.linalg.pinv(x),
'householder':lambda x,y:torch.linalg.matrix_norm(x),
'renorm':lambda x,y:F.normalize(x,dim=0),
'special_expit':lambda x,y:torch.special.expit(x),
'erf':lambda x,y:torch.erf(x),
'float_':lambda x,y:torch.tensor(float(x[0,0]))*y,
'triu_idx':lambda x,y:x[torch.triu_indices(2,2)[0],torch.triu_indices(2,2)[1]],
'meshgrid':lambda x,y:torch.meshgrid(x[0],y[0],indexing='ij')[0],
'cart':lambda x,y:torch.cartesian_prod(x[0],y[0]),
'combinations':lambda x,y:torch.combinations(x[0]),
'atleast':lambda x,y:torch.atleast_3d(x),
'swapdims':lambda x,y:torch.swapdims(x,0,1),
'rsplit':lambda x,y:torch.hsplit(x,2)[0],
'dstack':lambda x,y:torch.dstack([x,y]),
'arange':lambda x,y:torch.arange(2.)*x,
'logspace':lambda x,y:torch.logspace(0,1,2)*x,
'vander':lambda x,y:torch.vander(x[0],3),
'linspace_sym':lambda x,y:torch.stack([torch.linspace(0,float(a),3) for a in x[0]]),
}


def one(n, f):
    def case(ctx):
        x, y = ctx.real("x", (2, 2), lo=-2, hi=2), ctx.real("y", (2, 2), lo=-2, hi=2)
        r = f(x, y)
        ctx.eq("r", r, r)

    pid = os.fork()
    if pid == 0:

        def body():
            try:
                r = harness.run_case(case, {}, seed=1)
                if r["violations"]:
                    print(n, "disagrees", r["violations"][0], flush=True)
                elif r["inconclusive"]:
                    print(n, "not understood", str(r["inconclusive"][0])[:160], flush=True)
                elif not r["validated"]:
                    print(n, "not validated", flush=True)
            except BaseException as e:
                print(n, "exception", type(e), str(e)[:150], flush=True)

        signal.alarm(60)
        t = threading.Thread(target=body)
        t.start()
        t.join()
        sys.stdout.flush()
        os._exit(0)
    st = os.waitpid(pid, 0)[1]
    if st:
        print(n, "status", st, flush=True)


if __name__ == "__main__":
    for n, f in ops.items():
        if len(sys.argv) == 1 or n in sys.argv[1:]:
            one(n, f)
    print("done", len(ops))
