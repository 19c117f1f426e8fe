"""Table lookup (bilinear_interpolation) over the reals."""
from pyvc.spec import *

M = 'numerous.utils.interpolation.bilinear_interpolation:bilinear_interpolation'
EXPLAIN = 'Contract of bilinear_interpolation itself: for every table on a uniform grid with at least one point per ' \
          'axis, every table offset, every query point; posts split by where the point lies on each axis ' \
          '(on a grid line / clamped to an end / strictly between two lines). Floating point: bounded replay.'
ASSUME = ['floating-point arithmetic treated as real arithmetic (the bounded part runs the real floats)',
          'numba compiles the function to what Python means']


def build(reg):
    # (v - lo)/(hi - lo)*(n - 1) is the grid coordinate of v
    reg.lemma('coord', [('v', Real), ('lo', Real), ('hi', Real), ('n', Real), ('m', Int), ('o', Real), ('d', Real), ('i', Int)],
              requires=['n==real(m)', 'm>=2', 'd>0', 'lo==o', 'hi==o+d*(m-1)'],
              ensures=['implies(o+d*i<=v, i<=((v-lo)/(hi-lo))*(n-1))', 'implies(v<o+d*i, ((v-lo)/(hi-lo))*(n-1)<i)',
                       'implies(v==o+d*i, ((v-lo)/(hi-lo))*(n-1)==i)'],
              hints="use(quot(v-lo, d, m-1, i))")
    reg.lemma('quot', [('e', Real), ('d', Real), ('k', Int), ('i', Int)], requires=['k>=1', 'd>0'],
              ensures=['(e/(d*k))*k==e/d', 'implies(d*i<=e, i<=e/d)', 'implies(e<d*i, e/d<i)', 'implies(e==d*i, e/d==i)'])
    reg.lemma('one', [('v', Real), ('n', Real)], requires=['n==1'], ensures=['v*(n-1)==0'])
    reg.lemma('idx', [('i', Int), ('j', Int), ('m', Int), ('n', Int)], requires=['0<=i', 'i<m', '0<=j', 'j<n'],
              ensures=['0<=i+m*j', 'i+m*j<m*n'])
    reg.fn('X', [('d', None), ('b', None), ('i', None)], None, "d[b+6+i]")
    reg.fn('Y', [('d', None), ('b', None), ('nx', None), ('j', None)], None, "d[b+6+nx+j]")
    reg.fn('Q', [('d', None), ('b', None), ('nx', None), ('ny', None), ('i', None), ('j', None)], None,
           "d[b+6+nx+ny+i+nx*j]")
    # v lies on line i of an axis with n lines, or beyond the end whose line i is
    reg.fn('on', [('v', None), ('o', None), ('d', None), ('n', None), ('i', None)], None,
           "v==o+d*i or (i==0 and v<o) or (i==n-1 and v>o+d*(n-1))")
    reg.fn('between', [('v', None), ('o', None), ('d', None), ('n', None), ('i', None)], None,
           "i+1<n and o+d*i<v and v<o+d*(i+1)")
    hx = ' and '.join("coord(x, data[b+2], data[b+3], data[b], nx, x0, dx, %s)" % i for i in ('i', 'i+1', '0', 'nx-1'))
    hy = ' and '.join("coord(y, data[b+4], data[b+5], data[b+1], ny, y0, dy, %s)" % i for i in ('j', 'j+1', '0', 'ny-1'))
    pre = '\n'.join('use(%s)' % h for h in (hx + ' and ' + hy).split(' and ')) + \
        '\nuse(one(x, data[b]))\nuse(one(y, data[b+1]))'
    args = "data, b, nx, ny"
    reg.contract(
        M, params=dict(ix=Int, x=Real, y=Real, data_def=TArr(Int), data=TArr(Real)),
        ghosts=dict(nx=Int, ny=Int, b=Int, x0=Real, dx=Real, y0=Real, dy=Real, i=Int, j=Int),
        requires=[('table-exists', "0<=ix and ix<len(data_def) and b==data_def[ix] and b>=0"),
                  ('non-empty-uniform-grid', "nx>=1 and ny>=1 and dx>0 and dy>0"),
                  ('table-inside-data', "b+6+nx+ny+nx*ny<=len(data)"),
                  ('header', "data[b]==nx and data[b+1]==ny and data[b+2]==x0 and data[b+3]==x0+dx*(nx-1) and "
                             "data[b+4]==y0 and data[b+5]==y0+dy*(ny-1)"),
                  ('x-axis', "all(X(data,b,k)==x0+dx*k for k in range(nx))"),
                  ('y-axis', "all(Y(data,b,nx,k)==y0+dy*k for k in range(ny))"),
                  ('any-cell', "0<=i and i<nx and 0<=j and j<ny")],
        use_pre=pre,
        hints={'q_start_ix': "check(implies(on(x,x0,dx,nx,i), x1_ix==i and x2_ix==i), 'x-line-kept')\n"
                             "check(implies(between(x,x0,dx,nx,i), x1_ix==i and x2_ix==i+1), 'x-cell-kept')\n"
                             "check(implies(on(y,y0,dy,ny,j), y1_ix==j and y2_ix==j), 'y-line-kept')\n"
                             "check(implies(between(y,y0,dy,ny,j), y1_ix==j and y2_ix==j+1), 'y-cell-kept')\n"
                             "use(idx(x1_ix,y1_ix,nx,ny))\nuse(idx(x1_ix,y2_ix,nx,ny))\nuse(idx(x2_ix,y1_ix,nx,ny))\n"
                             "use(idx(x2_ix,y2_ix,nx,ny))\n",
               'y2': "check(implies(on(x,x0,dx,nx,i), x1_ix==i and x2_ix==i), 'x-line-found')\n"
                             "check(implies(between(x,x0,dx,nx,i), x1_ix==i and x2_ix==i+1), 'x-cell-found')\n"
                             "check(implies(on(y,y0,dy,ny,j), y1_ix==j and y2_ix==j), 'y-line-found')\n"
                             "check(implies(between(y,y0,dy,ny,j), y1_ix==j and y2_ix==j+1), 'y-cell-found')\n"
                             "check(x1==X(data,b,x1_ix) and x2==X(data,b,x2_ix) and y1==Y(data,b,nx,y1_ix) and y2==Y(data,b,nx,y2_ix), 'axis-values')\n"
                             "check(implies(between(x,x0,dx,nx,i), x1<x and x<x2), 'x-inside')\n"
                             "check(implies(between(y,y0,dy,ny,j), y1<y and y<y2), 'y-inside')\n"
                             },
        ensures=[
            ('entry-at-grid-point-and-clamped', "implies(on(x,x0,dx,nx,i) and on(y,y0,dy,ny,j), result==Q(%s,i,j))" % args),
            ('linear-along-y', "implies(on(x,x0,dx,nx,i) and between(y,y0,dy,ny,j), result==(Q(%s,i,j)*(Y(data,b,nx,j+1)-y)"
                               "+Q(%s,i,j+1)*(y-Y(data,b,nx,j)))/(Y(data,b,nx,j+1)-Y(data,b,nx,j)))" % (args, args)),
            ('linear-along-x', "implies(between(x,x0,dx,nx,i) and on(y,y0,dy,ny,j), result==(Q(%s,i,j)*(X(data,b,i+1)-x)"
                               "+Q(%s,i+1,j)*(x-X(data,b,i)))/(X(data,b,i+1)-X(data,b,i)))" % (args, args)),
            ('bilinear-inside-cell',
             "implies(between(x,x0,dx,nx,i) and between(y,y0,dy,ny,j), result=="
             "(Q({a},i,j)*(X(data,b,i+1)-x)*(Y(data,b,nx,j+1)-y)+Q({a},i+1,j)*(x-X(data,b,i))*(Y(data,b,nx,j+1)-y)"
             "+Q({a},i,j+1)*(X(data,b,i+1)-x)*(y-Y(data,b,nx,j))+Q({a},i+1,j+1)*(x-X(data,b,i))*(y-Y(data,b,nx,j)))"
             "/((X(data,b,i+1)-X(data,b,i))*(Y(data,b,nx,j+1)-Y(data,b,nx,j))))".format(a=args)),
        ])
