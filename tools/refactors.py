"""Behaviour-preserving edits: on each of them every check listed must stay quiet.
tools/runrefac.py applies each to a scratch copy of /repo and runs the checks."""
REFACS = {}


def refac(id, props, edits):
    REFACS[id] = (props.split(), edits)


B = 'src/batoid.cpp'
# --- C++ -----------------------------------------------------------------------------------------
refac('transform-helper', 'P01 P24', [
    (B, 'namespace batoid {\n\n\n    void applyForwardTransformArrays(', '''namespace batoid {

    // out = drot^T . (a, b, c)
    static inline void rotateIn(
        const double* m, double a, double b, double c,
        double& oa, double& ob, double& oc
    ) {
        oa = a*m[0] + b*m[3] + c*m[6];
        ob = a*m[1] + b*m[4] + c*m[7];
        oc = a*m[2] + b*m[5] + c*m[8];
    }


    void applyForwardTransformArrays('''),
    (B, '''            xptr[i] = dx*drotptr[0] + dy*drotptr[3] + dz*drotptr[6];
            yptr[i] = dx*drotptr[1] + dy*drotptr[4] + dz*drotptr[7];
            zptr[i] = dx*drotptr[2] + dy*drotptr[5] + dz*drotptr[8];
            double vx = vxptr[i]*drotptr[0] + vyptr[i]*drotptr[3] + vzptr[i]*drotptr[6];
            double vy = vxptr[i]*drotptr[1] + vyptr[i]*drotptr[4] + vzptr[i]*drotptr[7];
            double vz = vxptr[i]*drotptr[2] + vyptr[i]*drotptr[5] + vzptr[i]*drotptr[8];
''', '''            rotateIn(drotptr, dx, dy, dz, xptr[i], yptr[i], zptr[i]);
            double vx, vy, vz;
            rotateIn(drotptr, vxptr[i], vyptr[i], vzptr[i], vx, vy, vz);
''')])
refac('transform-loop', 'P01 P24', [
    (B, '''        for(size_t i=0; i<n; i++) {
            double dx = x[i]-dr[0];
            double dy = y[i]-dr[1];
            double dz = z[i]-dr[2];
            x[i] = dx*drot[0] + dy*drot[3] + dz*drot[6];
            y[i] = dx*drot[1] + dy*drot[4] + dz*drot[7];
            z[i] = dx*drot[2] + dy*drot[5] + dz*drot[8];
        }
    }

    void applyReverse''', '''        for(size_t k=0; k<n; ++k) {
            const double d[3] = {x[k]-dr[0], y[k]-dr[1], z[k]-dr[2]};
            double o[3];
            for (int c=0; c<3; c++) {
                o[c] = 0.0;
                for (int r=0; r<3; r++)
                    o[c] += d[r]*drot[3*r+c];
            }
            x[k] = o[0];
            y[k] = o[1];
            z[k] = o[2];
        }
    }

    void applyReverse''')])
refac('intersect-continue', 'P03 P08 P24', [
    (B, '''            if (!failptr[i]) {
                double dt = 0.0;
                bool success = surfacePtr->timeToIntersect(x, y, z, vx, vy, vz, dt, niter);
                if (success) {
                    x += vx * dt;
                    y += vy * dt;
                    z += vz * dt;
                    t += dt;
                    xptr[i] = x;
                    yptr[i] = y;
                    zptr[i] = z;
                    vxptr[i] = vx;
                    vyptr[i] = vy;
                    vzptr[i] = vz;
                    tptr[i] = t;
                    if (coatingPtr) {
                        double nx, ny, nz;
                        surfacePtr->normal(x, y, nx, ny, nz);
                        double n1 = vx*vx;
                        n1 += vy*vy;
                        n1 += vz*vz;
                        n1 = 1/sqrt(n1);
                        double alpha = vx*nx;
                        alpha += vy*ny;
                        alpha += vz*nz;
                        alpha *= n1;
                        fluxptr[i] *= coatingPtr->getTransmit(wptr[i], alpha);
                    }
                } else {
                    failptr[i] = true;
                    vigptr[i] = true;
                }
            }
''', '''            if (failptr[i])
                continue;
            double dt = 0.0;
            if (!surfacePtr->timeToIntersect(x, y, z, vx, vy, vz, dt, niter)) {
                vigptr[i] = true;
                failptr[i] = true;
                continue;
            }
            const double hx = x + vx*dt;
            const double hy = y + vy*dt;
            const double hz = z + vz*dt;
            if (coatingPtr) {
                double nx, ny, nz;
                surfacePtr->normal(hx, hy, nx, ny, nz);
                const double speed = sqrt(vx*vx + vy*vy + vz*vz);
                const double alpha = (vx*nx + vy*ny + vz*nz)/speed;
                fluxptr[i] *= coatingPtr->getTransmit(wptr[i], alpha);
            }
            tptr[i] = t + dt;
            xptr[i] = hx;
            yptr[i] = hy;
            zptr[i] = hz;
            vxptr[i] = vx;
            vyptr[i] = vy;
            vzptr[i] = vz;
''')])
refac('reflect-direct', 'P06 P11 P24', [
    (B, '''                    double alpha = vx*nx;
                    alpha += vy*ny;
                    alpha += vz*nz;
                    // v -= 2 alpha normVec
                    vx -= 2*alpha*nx;
                    vy -= 2*alpha*ny;
                    vz -= 2*alpha*nz;
''', '''                    double alpha = vx*nx + vy*ny + vz*nz;
                    const double twice = 2*alpha;
                    vx = vx - twice*nx;
                    vy = vy - twice*ny;
                    vz = vz - twice*nz;
'''),
    (B, '''                    if (coatingPtr) {
                        double nx, ny, nz;
                        surfacePtr->normal(x, y, nx, ny, nz);
                        double n1 = vx*vx;
                        n1 += vy*vy;
                        n1 += vz*vz;
                        n1 = 1/sqrt(n1);
                        alpha *= n1;
                        fluxptr[i] *= coatingPtr->getReflect(wptr[i], alpha);
                    }
''', '''                    if (coatingPtr) {
                        double n1 = 1/std::sqrt(vx*vx + vy*vy + vz*vz);
                        fluxptr[i] *= coatingPtr->getReflect(wptr[i], alpha*n1);
                    }
''')])
refac('snell-helper', 'P07 P08 P11', [
    (B, 'namespace batoid {\n\n\n    void applyForwardTransformArrays(', '''namespace batoid {

    namespace {
        // Bend a unit direction; false on total internal reflection
        bool bend(
            const double n1, const double n2, const double alpha,
            const double nvx, const double nvy, const double nvz,
            const double nx, const double ny, const double nz,
            double& ox, double& oy, double& oz
        ) {
            const double eta = n1/n2;
            const double sinsqr = eta*eta*(1-alpha*alpha);
            if (sinsqr <= 1.0) {
                const double nfactor = eta*alpha + sqrt(1-sinsqr);
                ox = (eta*nvx - nfactor*nx)/n2;
                oy = (eta*nvy - nfactor*ny)/n2;
                oz = (eta*nvz - nfactor*nz)/n2;
                return true;
            }
            ox = oy = oz = std::numeric_limits<double>::quiet_NaN();
            return false;
        }
    }

    void applyForwardTransformArrays('''),
    (B, '''                    double eta = n1/n2;
                    double sinsqr = eta*eta*(1-alpha*alpha);
                    // output
                    xptr[i] = x;
                    yptr[i] = y;
                    zptr[i] = z;
                    tptr[i] = t;
                    if (!(sinsqr <= 1.0)) {  // total internal reflection (or undefined index)
                        vxptr[i] = std::numeric_limits<double>::quiet_NaN();
                        vyptr[i] = std::numeric_limits<double>::quiet_NaN();
                        vzptr[i] = std::numeric_limits<double>::quiet_NaN();
                        failptr[i] = true;
                        vigptr[i] = true;
                    } else {
                        double nfactor = eta*alpha + sqrt(1-sinsqr);
                        vxptr[i] = eta*nvx - nfactor*nx;
                        vyptr[i] = eta*nvy - nfactor*ny;
                        vzptr[i] = eta*nvz - nfactor*nz;
                        vxptr[i] /= n2;
                        vyptr[i] /= n2;
                        vzptr[i] /= n2;
                    }
''', '''                    // output
                    xptr[i] = x;
                    yptr[i] = y;
                    zptr[i] = z;
                    tptr[i] = t;
                    if (!bend(n1, n2, alpha, nvx, nvy, nvz, nx, ny, nz,
                              vxptr[i], vyptr[i], vzptr[i])) {
                        failptr[i] = true;
                        vigptr[i] = true;
                    }
''')])
refac('rsplit-order', 'P09 P08 P24', [
    (B, '''                    // Reflection
                    xptr2[i] = x;
                    yptr2[i] = y;
                    zptr2[i] = z;
                    vxptr2[i] = vx - 2*alpha*nx/n1;
                    vyptr2[i] = vy - 2*alpha*ny/n1;
                    vzptr2[i] = vz - 2*alpha*nz/n1;
                    tptr2[i] = t;
                    wptr2[i] = wptr[i];
                    fluxptr2[i] = fluxptr[i]*reflect;
                    vigptr2[i] = vigptr[i];
                    failptr2[i] = failptr[i];
''', '''                    // Reflection
                    const double vn = vx*nx + vy*ny + vz*nz;
                    failptr2[i] = false;
                    vigptr2[i] = vigptr[i];
                    wptr2[i] = wptr[i];
                    tptr2[i] = t;
                    fluxptr2[i] = reflect*fluxptr[i];
                    xptr2[i] = x;
                    yptr2[i] = y;
                    zptr2[i] = z;
                    vxptr2[i] = vx - 2*vn*nx;
                    vyptr2[i] = vy - 2*vn*ny;
                    vzptr2[i] = vz - 2*vn*nz;
''')])
refac('screen-branch', 'P10 P24', [
    (B, '''                    if (cos3 < 0) {
                        cos1 += dPd1;
                        cos2 += dPd2;
                        cos3 = -std::sqrt(1 - cos1*cos1 - cos2*cos2);
                    } else {
                        cos1 += dPd1;
                        cos2 += dPd2;
                        cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
                    }
''', '''                    const double sign = (cos3 < 0) ? -1.0 : 1.0;
                    cos1 += dPd1;
                    cos2 += dPd2;
                    cos3 = sign*std::sqrt(1 - (cos1*cos1 + cos2*cos2));
''')])
S = 'src/surface.cpp'
refac('newton-while', 'P03 P24', [
    (S, '''        for (int iter=0; iter<niter; iter++) {
            // repeatedly intersect plane tangent to surface at (rPx, rPy, sz) with ray
            double nx, ny, nz;
            normal(rPx, rPy, nx, ny, nz);
            dt = (rPx-x)*nx + (rPy-y)*ny + (sz-z)*nz;
            dt /= (nx*vx + ny*vy + nz*vz);
            rPx = x+vx*dt;
            rPy = y+vy*dt;
            rPz = z+vz*dt;
            sz = sag(rPx, rPy);
        }
        return (std::abs(sz-rPz) < 1e-12);
''', '''        int left = niter;
        while (left > 0) {
            --left;
            double nx, ny, nz;
            normal(rPx, rPy, nx, ny, nz);
            const double num = (rPx-x)*nx + (rPy-y)*ny + (sz-z)*nz;
            const double den = nx*vx + ny*vy + nz*vz;
            dt = num/den;
            rPx = x+vx*dt;
            rPy = y+vy*dt;
            rPz = z+vz*dt;
            sz = sag(rPx, rPy);
        }
        const double miss = rPz - sz;
        return (std::abs(miss) < 1e-12);
''')])
refac('asphere-horner', 'P05 P24', [
    ('src/asphere.cpp', '''        double rr = 1.0;
        double result = Quadric::sag(x, y);
        for (int i=0; i<_size; i++) {
            rr *= r2;
            result += _coefs[i]*rr;
        }
        return result;
''', '''        double poly = 0.0;
        for (int i=int(_size)-1; i>=0; i--) {
            poly += _coefs[i];
            poly *= r2;
        }
        return Quadric::sag(x, y) + poly;
''')])
refac('asphere-dzdr', 'P04 P24', [
    ('src/asphere.cpp', '''        double result = Quadric::_dzdr(r);
        double rr = r*r;
        double rrr = r;
        for (int i=0; i<_size; i++) {
            result += _dzdrcoefs[i]*rrr;
            rrr *= rr;
        }
        return result;
''', '''        const double rsq = r*r;
        double power = r;
        double sum = 0.0;
        const double* c = _dzdrcoefs;
        for (size_t k=0; k<_size; ++k) {
            sum += c[k]*power;
            power *= rsq;
        }
        return Quadric::_dzdr(r) + sum;
''')])
refac('table-cell', 'P05 P24', [
    ('src/table.cpp', '''        double val0 = oneDSpline(
            xfrac,
               _z[_nx*iy + ix],        _z[_nx*iy + ix+1],
            _dzdx[_nx*iy + ix]*_dx, _dzdx[_nx*iy + ix+1]*_dx
        );
        double val1 = oneDSpline(
            xfrac,
               _z[_nx*(iy+1) + ix],        _z[_nx*(iy+1) + ix+1],
            _dzdx[_nx*(iy+1) + ix]*_dx, _dzdx[_nx*(iy+1) + ix+1]*_dx
        );
''', '''        const size_t lo = _nx*iy + ix;
        const size_t hi = lo + _nx;
        double val0 = oneDSpline(xfrac, _z[lo], _z[lo+1], _dzdx[lo]*_dx, _dzdx[lo+1]*_dx);
        double val1 = oneDSpline(xfrac, _z[hi], _z[hi+1], _dzdx[hi]*_dx, _dzdx[hi+1]*_dx);
''')])
refac('table-locate', 'P05 P04 P24', [
    ('src/table.cpp', '''    double Table::eval(double x, double y) const {
        int ix = int(std::floor((x-_x0)/_dx));
        int iy = int(std::floor((y-_y0)/_dy));
        if ((ix >= (_nx-1)) or (ix < 0) or (iy >= (_ny-1)) or (iy < 0)) {
            return _use_nan ? NAN : 0.0;
        }
''', '''    static bool outside(int ix, int iy, size_t nx, size_t ny) {
        if (ix < 0 || iy < 0)
            return true;
        return ix >= int(nx)-1 || iy >= int(ny)-1;
    }

    double Table::eval(double x, double y) const {
        const int ix = int(std::floor((x-_x0)/_dx));
        const int iy = int(std::floor((y-_y0)/_dy));
        if (outside(ix, iy, _nx, _ny)) {
            if (_use_nan)
                return NAN;
            return 0.0;
        }
''')])
refac('horner-split', 'P05 P04 P24', [
    ('src/polynomialSurface.cpp', '''        double result = 0.0;
        for (int i=ny-1; i>=0; i--) {
            result *= x;
            result += horner(y, coefs + (i*nx), nx);
        }
        return result;
''', '''        double result = 0.0;
        int row = int(ny);
        while (row > 0) {
            row -= 1;
            const double* p = &coefs[row*nx];
            result = result*x + horner(y, p, nx);
        }
        return result;
''')])
refac('sum-loop', 'P05 P04 P24', [
    ('src/sum.cpp', '''        double result = 0.0;
        for (int i=0; i<_nsurf; i++)
            result += _surfaces[i]->sag(x, y);
        return result;
''', '''        double total = 0.0;
        const Surface* const* s = _surfaces;
        for (size_t k=0; k<_nsurf; ++k) {
            const double part = s[k]->sag(x, y);
            total = total + part;
        }
        return total;
'''), ('src/sum.cpp', '''        nx = 0.0;
        ny = 0.0;
        for (int i=0; i<_nsurf; i++) {
            double tnx, tny, tnz;
            _surfaces[i]->normal(x, y, tnx, tny, tnz);
            nx += tnx/tnz;
            ny += tny/tnz;
        }
        nz = 1./std::sqrt(nx*nx + ny*ny + 1);
        nx *= nz;
        ny *= nz;
''', '''        double sx = 0.0;
        double sy = 0.0;
        for (int i=0; i<_nsurf; i++) {
            double tnx, tny, tnz;
            _surfaces[i]->normal(x, y, tnx, tny, tnz);
            sx += tnx/tnz;
            sy += tny/tnz;
        }
        const double norm = std::sqrt(1 + sx*sx + sy*sy);
        nx = sx/norm;
        ny = sy/norm;
        nz = 1./norm;
''')])
O = 'src/obscuration.cpp'
refac('polygon-index', 'P12 P24', [
    (O, '''            double x1 = _xp[0];  // first point of segment
            double y1 = _yp[0];
            double xinters = 0.0;
            bool inside = false;
            for (int i=1; i<=_size; i++) {  // Loop over polygon edges
                double x2 = _xp[i % _size];  // second point of segment
                double y2 = _yp[i % _size];
                if (y > std::min(y1,y2)) {
                    if (y <= std::max(y1,y2)) {
                        if (x <= std::max(x1,x2)) {
                            if (y1 != y2) {
                                xinters = (y-y1)*(x2-x1)/(y2-y1)+x1;
                            }
                            if (x1 == x2 or x <= xinters) {
                                inside = !inside;
                            }
                        }
                    }
                }
                x1 = x2;
                y1 = y2;
            }
            return inside;
''', '''            bool inside = false;
            for (int i=0; i<_size; i++) {  // Loop over polygon edges
                const int j = (i+1 == _size) ? 0 : i+1;
                const double x1 = _xp[i], y1 = _yp[i];
                const double x2 = _xp[j], y2 = _yp[j];
                if (y <= std::min(y1,y2) || y > std::max(y1,y2) || x > std::max(x1,x2))
                    continue;
                const double xinters = (y-y1)*(x2-x1)/(y2-y1)+x1;
                if (x1 == x2 || x <= xinters)
                    inside = !inside;
            }
            return inside;
''')])
refac('union-early', 'P12 P24', [
    (O, '''            bool ret = false;
            for (int i=0; i<_nobsc; i++) {
                ret |= _obscs[i]->contains(x, y);
            }
            return ret;
''', '''            for (int i=0; i<_nobsc; i++) {
                if (_obscs[i]->contains(x, y))
                    return true;
            }
            return false;
'''), (O, '''            bool ret = true;
            for (int i=0; i<_nobsc; i++) {
                ret &= _obscs[i]->contains(x, y);
            }
            return ret;
''', '''            bool ret = true;
            for (int i=0; ret && i<_nobsc; i++)
                ret = _obscs[i]->contains(x, y);
            return ret;
''')])
refac('annulus-squares', 'P12 P24', [
    (O, '''            double h = std::hypot(x-_x0, y-_y0);
            return (_inner <= h) && (h < _outer);
''', '''            const double dx = x-_x0;
            const double dy = y-_y0;
            const double h = std::sqrt(dx*dx + dy*dy);
            if (h < _inner)
                return false;
            return h < _outer;
'''), (O, '''            return (xp > 0.0 && yp > -_width/2 && yp < _width/2);
''', '''            return xp > 0.0 && std::abs(yp) < 0.5*_width;
''')])
refac('obscure-if', 'P13 P24 P08', [
    (B, '''            vigptr[i] |= obscPtr->contains(xptr[i], yptr[i]);
''', '''            if (!vigptr[i])
                vigptr[i] = obscPtr->contains(xptr[i], yptr[i]);
''')])
M = 'src/medium.cpp'
refac('table-medium', 'P14 P24', [
    (M, '''            int upperIdx;
            for(upperIdx=1; upperIdx<_size; upperIdx++) {
                if (wavelength < _args[upperIdx])
                    break;
            }
            double out = (wavelength - _args[upperIdx-1]);
            out *= (_vals[upperIdx] - _vals[upperIdx-1]);
            out /= (_args[upperIdx] - _args[upperIdx-1]);
            out += _vals[upperIdx-1];
            return out;
''', '''            int hi = 1;
            while (hi < _size && !(wavelength < _args[hi]))
                ++hi;
            const int lo = hi-1;
            const double slope = (_vals[hi] - _vals[lo])/(_args[hi] - _args[lo]);
            return _vals[lo] + slope*(wavelength - _args[lo]);
''')])
refac('sellmeier-terms', 'P14 P24', [
    (M, '''            double x = wavelength*wavelength*1e12;
            return std::sqrt(1.0 + _B1*x/(x-_C1) + _B2*x/(x-_C2) + _B3*x/(x-_C3));
''', '''            const double w = wavelength*1e6;
            const double x = w*w;
            double n2 = 1.0;
            n2 += x*_B1/(x-_C1);
            n2 += x*_B2/(x-_C2);
            n2 += x*_B3/(x-_C3);
            return std::sqrt(n2);
''')])
R = 'src/rayVector.cpp'
refac('phase-local', 'P15 P24', [
    (R, '''            out[i] = (_x-xptr[i])*vxptr[i];
            out[i] += (_y-yptr[i])*vyptr[i];
            out[i] += (_z-zptr[i])*vzptr[i];
            out[i] /= v2;
            out[i] -= _t-tptr[i];
            out[i] *= 2 * PI / wptr[i];
''', '''            const double k = 2*PI/wptr[i];
            const double path = (_x-xptr[i])*vxptr[i] + (_y-yptr[i])*vyptr[i] + (_z-zptr[i])*vzptr[i];
            out[i] = k*(path/v2 - (_t-tptr[i]));
''')])
refac('sum-amplitude-skip', 'P15 P24', [
    (R, '''            if (!failptr[i] && !(ignoreVignetted && vigptr[i])) {
                real += std::cos(phase)*fluxptr[i];
                imag += std::sin(phase)*fluxptr[i];
            }
''', '''            bool use = !failptr[i];
            if (ignoreVignetted && vigptr[i])
                use = false;
            const double weight = use ? fluxptr[i] : 0.0;
            if (use) {
                real += std::cos(phase)*weight;
                imag += std::sin(phase)*weight;
            }
''')])
refac('propagate-dt', 'P15 P24', [
    (R, '''            xptr[i] += vxptr[i] * (_t - tptr[i]);
            yptr[i] += vyptr[i] * (_t - tptr[i]);
            zptr[i] += vzptr[i] * (_t - tptr[i]);
            tptr[i] = _t;
''', '''            const double dt = _t - tptr[i];
            tptr[i] += dt;
            tptr[i] = _t;
            xptr[i] += vxptr[i]*dt;
            yptr[i] += vyptr[i]*dt;
            zptr[i] += vzptr[i]*dt;
''')])
refac('quadric-normal', 'P04 P03 P24', [
    ('src/quadric.cpp', '''        double r = std::sqrt(x*x + y*y);
        if (r == 0.0) {
            nx = 0.0;
            ny = 0.0;
            nz = 1.0;
        } else {
            double dzdr = _dzdr(r);
            nz = 1/sqrt(1+dzdr*dzdr);
            nx = -x/r*dzdr*nz;
            ny = -y/r*dzdr*nz;
        }
''', '''        const double r = std::sqrt(x*x + y*y);
        nx = 0.0;
        ny = 0.0;
        nz = 1.0;
        if (r != 0.0) {
            const double slope = _dzdr(r);
            nz /= std::sqrt(1 + slope*slope);
            const double f = slope*nz/r;
            nx -= x*f;
            ny -= y*f;
        }
''')])

# --- Python --------------------------------------------------------------------------------------
C = 'batoid/coordSys.py'
refac('coordsys-helpers', 'P02 P01 P20', [
    (C, ('CoordSys.toLocal',), '''
def toLocal(self, v):
    d = np.asarray(v, dtype=float) - self.origin
    return np.dot(d, self.rot)
'''), (C, ('CoordSys.toGlobal',), '''
def toGlobal(self, v):
    v = np.array(v, dtype=float)
    return np.dot(v, self.rot.T) + self.origin
'''), (C, ('CoordSys.rotateGlobal',), '''
def rotateGlobal(self, rot, rotCenter=(0, 0, 0), coordSys=None):
    frame = CoordSys() if coordSys is None else coordSys
    centre = frame.toGlobal(rotCenter)
    arm = self.origin - centre
    newOrigin = centre + rot @ arm
    return CoordSys(newOrigin, rot @ self.rot)
'''), (C, ('CoordSys.rotateLocal',), '''
def rotateLocal(self, rot, rotCenter=(0, 0, 0), coordSys=None):
    frame = self if coordSys is None else coordSys
    centre = frame.toGlobal(rotCenter)
    globalRot = self.rot @ rot @ self.rot.T
    return CoordSys(centre + globalRot @ (self.origin - centre), self.rot @ rot)
''')])
T = 'batoid/coordTransform.py'
refac('transform-arrays', 'P01', [
    (T, ('CoordTransform.applyForwardArray',), '''
def applyForwardArray(self, x, y, z):
    r = np.stack(np.broadcast_arrays(x, y, z)).astype(float)
    shifted = (r.T - self.dr).T
    return np.tensordot(self.drot, shifted, axes=([0], [0]))
'''), (T, ('CoordTransform.applyReverseArray',), '''
def applyReverseArray(self, x, y, z):
    r = np.array([x, y, z], dtype=float)
    out = np.tensordot(self.drot, r, axes=1)
    for i in range(3):
        out[i] += self.dr[i]
    return out
''')])
L = 'batoid/lattice.py'
refac('lattice-comprehension', 'P23', [
    (L, ('primitiveToLattice',), '''
def primitiveToLattice(primitiveVectors, Ns):
    axes = [np.arange(n) - n//2 for n in Ns]
    grid = np.stack(np.meshgrid(*axes, indexing='ij'), axis=-1)
    return grid @ primitiveVectors
''')])
TR = 'batoid/trace.py'
refac('trace-helper', 'P03 P06 P07 P09 P10 P24', [
    (TR, ('intersect',), '''
def _frame(rv, coordSys):
    if coordSys is None:
        coordSys = rv.coordSys
    ct = CoordTransform(rv.coordSys, coordSys)
    return coordSys, ct.dr, ct.drot.ravel()


def intersect(surface, rv, coordSys=None, coating=None):
    from .global_vars import _batoid_max_threads, _batoid_niter
    coordSys, dr, drot = _frame(rv, coordSys)
    _batoid.intersect(
        surface._surface, dr, drot, rv._rv,
        coating._coating if coating else None,
        _batoid_max_threads, _batoid_niter
    )
    rv.coordSys = coordSys
    return rv
'''), (TR, ('reflect',), '''
def reflect(surface, rv, coordSys=None, coating=None):
    from .global_vars import _batoid_max_threads, _batoid_niter
    coordSys, dr, drot = _frame(rv, coordSys)
    _coating = None
    if coating:
        _coating = coating._coating
    _batoid.reflect(surface._surface, dr, drot, rv._rv, _coating, _batoid_max_threads, _batoid_niter)
    rv.coordSys = coordSys
    return rv
'''), (TR, ('rSplit',), '''
def rSplit(surface, rv, inMedium, outMedium, coating, coordSys=None):
    from .global_vars import _batoid_max_threads, _batoid_niter
    coordSys, dr, drot = _frame(rv, coordSys)
    rvSplit = rv.copy()
    _batoid.rSplit(
        surface._surface, dr, drot,
        inMedium._medium, outMedium._medium, coating._coating,
        rv._rv, rvSplit._rv,
        _batoid_max_threads, _batoid_niter
    )
    for r in (rv, rvSplit):
        r.coordSys = coordSys
    return rv, rvSplit
''')])
U = 'batoid/utils.py'
refac('postel-where', 'P17', [
    (U, ('postelToDirCos',), '''
def postelToDirCos(u, v):
    rho = np.hypot(u, v)
    if np.ndim(rho) == 0:
        if rho == 0.0:
            return 0.0, 0.0, -1.0
        scale = np.sin(rho)/rho
        return u*scale, v*scale, -np.cos(rho)
    centre = rho == 0.0
    scale = np.sin(rho)/np.where(centre, 1.0, rho)
    alpha = np.where(centre, 0.0, u*scale)
    beta = np.where(centre, 0.0, v*scale)
    gamma = np.where(centre, -1.0, -np.cos(rho))
    return alpha, beta, gamma
'''), (U, ('fieldToDirCos',), '''
def fieldToDirCos(u, v, projection='postel'):
    converters = {
        'postel': postelToDirCos,
        'zemax': zemaxToDirCos,
        'gnomonic': gnomonicToDirCos,
        'stereographic': stereographicToDirCos,
        'lambert': lambertToDirCos,
        'orthographic': orthographicToDirCos,
    }
    if projection not in converters:
        raise ValueError("Bad projection: {}".format(projection))
    return converters[projection](u, v)
''')])
refac('projection-zero-helper', 'P17', [
    (U, ('lambertToDirCos',), '''
def lambertToDirCos(u, v):
    rhosqr = u*u + v*v
    factor = np.sqrt(1 - rhosqr/4)
    return u*factor, v*factor, rhosqr/2 - 1
'''), (U, ('gnomonicToDirCos',), '''
def gnomonicToDirCos(u, v):
    norm = np.sqrt(1.0 + u*u + v*v)
    return u/norm, v/norm, -1/norm
''')])
refac('hexapolar-lists', 'P16', [
    (U, ('hexapolar',), '''
def hexapolar(outer=1.0, inner=0.0, nrad=5, naz=30, kfold=6, rth=False):
    rhos = np.linspace(outer, inner, nrad)
    nphis = []
    for rho in rhos:
        nphi = int((naz*rho/outer)//kfold)*kfold
        nphis.append(nphi if nphi != 0 else kfold)
    centre = rhos[-1] == 0.0
    if centre:
        nphis[-1] = 1
    rr = []
    th = []
    for rho, nphi in zip(rhos, nphis):
        rr.append(np.full(nphi, rho))
        th.append(np.linspace(0, 2*np.pi, nphi, endpoint=False))
    rr = np.concatenate(rr)
    th = np.concatenate(th)
    if centre:
        rr[-1] = 0.0
        th[-1] = 0.0
    if rth:
        return rr, th
    return rr*np.cos(th), rr*np.sin(th)
''')])
RV = 'batoid/rayVector.py'
refac('finish-helper', 'P16', [
    (RV, ('RayVector._finish',), '''
def _finish(cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys, stopSurface):
    flux = np.array(np.broadcast_to(flux, x.shape), dtype=float)
    if source is not None:
        src = CoordTransform(globalCoordSys, coordSys).applyForwardArray(*source)
        v = np.stack([x-src[0], y-src[1], z-src[2]])
        v = v/(n*np.sqrt(np.sum(v*v, axis=0)))
        return RayVector(
            src[0], src[1], src[2], v[0], v[1], v[2],
            0.0, w, flux, coordSys=coordSys
        )
    vv = np.array(dirCos, dtype=float)
    vv = vv/(n*np.sqrt(np.dot(vv, vv)))
    zhat = -n*vv
    pick = np.array([1., 0, 0]) if abs(zhat[0]) < 0.9 else np.array([0., 1, 0])
    xhat = np.cross(pick, zhat)
    xhat = xhat/np.sqrt(np.dot(xhat, xhat))
    yhat = np.cross(xhat, zhat)
    toSys = CoordTransform(stopSurface.coordSys, coordSys)
    vertex = toSys.applyForwardArray(0., 0., stopSurface.surface.sag(0., 0.))
    rot = np.stack([xhat, yhat, zhat]).T
    _batoid.finishParallel(
        vertex + zhat*backDist, rot.ravel(), vv,
        x.ctypes.data, y.ctypes.data, z.ctypes.data, len(x)
    )
    size = len(x)
    return RayVector._directInit(
        x, y, z,
        np.full_like(x, vv[0]), np.full_like(x, vv[1]), np.full_like(x, vv[2]),
        np.zeros(size), w, flux,
        np.zeros(size, dtype=bool), np.zeros(size, dtype=bool),
        coordSys
    )
''')])
refac('rv-copy-loop', 'P18 P24', [
    (RV, ('RayVector.copy',), '''
def copy(self):
    self._syncToHost()
    ret = RayVector.__new__(RayVector)
    for name in ['_x', '_y', '_z', '_vx', '_vy', '_vz', '_t', '_wavelength', '_flux', '_vignetted', '_failed']:
        setattr(ret, name, np.copy(getattr(self, name)))
    ret.coordSys = self.coordSys.copy()
    return ret
'''), (RV, ('RayVector.__getitem__',), '''
def __getitem__(self, idx):
    if isinstance(idx, Integral):
        size = len(self)
        if not -size <= idx < size:
            raise IndexError('index {} is out of bounds for axis 0 with size {}'.format(idx, size))
        start = idx if idx >= 0 else idx + size
        idx = slice(start, start+1)
    self._syncToHost()
    fields = [
        self._x, self._y, self._z, self._vx, self._vy, self._vz,
        self._t, self._wavelength, self._flux, self._vignetted, self._failed
    ]
    return RayVector._directInit(*[np.copy(f[idx]) for f in fields], self.coordSys)
'''), (RV, ('concatenateRayVectors',), '''
def concatenateRayVectors(rvs):
    coordSys = rvs[0].coordSys
    same = []
    for rv in rvs:
        if rv.coordSys != coordSys:
            rv = rv.copy().toCoordSys(coordSys)
        same.append(rv)
    names = ['x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed']
    columns = [np.concatenate([getattr(rv, name) for rv in same]) for name in names]
    return RayVector(*columns, coordSys)
''')])
refac('k-vector', 'P18 P15', [
    (RV, ('RayVector.k',), '''
def k(self):
    v = self.v
    vsqr = np.sum(np.square(v), axis=-1)
    scale = 2*np.pi/(self.wavelength*vsqr)
    return v*scale[:, None]
''')])
OP = 'batoid/optic.py'
refac('interface-trace', 'P19 P13', [
    (OP, ('Interface.trace',), '''
def trace(self, rv, reverse=False):
    self.interact(rv, reverse=reverse)
    obsc = self.obscuration
    if obsc is None:
        return rv
    obsc.obscure(rv)
    return rv
'''), (OP, ('Interface.traceSplit',), '''
def traceSplit(self, rv, minFlux=1e-3, reverse=False, _verbose=False):
    if self.skip:
        if not hasattr(rv, 'path'):
            rv.path = []
        return ([], [rv]) if reverse else ([rv], [])
    refracted, reflected = self.rSplit(rv, reverse=reverse)
    path = list(getattr(rv, 'path', [])) + [self.name]
    for out in (refracted, reflected):
        if out is None:
            continue
        if self.obscuration is not None:
            self.obscuration.obscure(out)
        out.path = list(path)
    forward, backward = [refracted], [reflected]
    if reverse != isinstance(self, Mirror):
        forward, backward = backward, forward
    return forward, backward
''')])
refac('with-shift-dict', 'P20', [
    (OP, ('Interface.withGlobalShift',), '''
def withGlobalShift(self, shift):
    newDict = {k: v for k, v in self.__dict__.items() if k != 'surface'}
    newDict['coordSys'] = self.coordSys.shiftGlobal(shift)
    if hasattr(self, 'stopSurface'):
        newDict['stopSurface'] = self.stopSurface.withGlobalShift(shift)
    return self.__class__(self.surface, **newDict)
'''), (OP, ('CompoundOptic.withGloballyShiftedOptic',), '''
def withGloballyShiftedOptic(self, name, shift):
    name = self._names.get(name, name)
    if name not in self.itemDict:
        raise ValueError("Optic {} not found".format(name))
    if name == self.name:
        return self.withGlobalShift(shift)
    prefix = self.name + '.'
    assert name.startswith(prefix), name + ' is not in ' + self.name
    name = name[len(prefix):]
    newItems = list(self.items)
    newDict = dict(self.__dict__)
    del newDict['items']
    for i, item in enumerate(newItems):
        if name == item.name:
            newItems[i] = item.withGlobalShift(shift)
            return self.__class__(newItems, **newDict)
        if name.startswith(item.name + '.'):
            newItems[i] = item.withGloballyShiftedOptic(name, shift)
            return self.__class__(newItems, **newDict)
    raise RuntimeError("Error in withGloballyShiftedOptic!, Shouldn't get here!")
''')])
PA = 'batoid/parse.py'
refac('parse-tables', 'P22', [
    (PA, ('parse_coordSys',), '''
def parse_coordSys(config, coordSys=batoid.CoordSys()):
    axes = {'x': [1., 0., 0.], 'y': [0., 1., 0.], 'z': [0., 0., 1.]}
    rots = {'rotX': batoid.RotX, 'rotY': batoid.RotY, 'rotZ': batoid.RotZ}
    for key, value in config.items():
        if key in axes:
            coordSys = coordSys.shiftLocal([value*a for a in axes[key]])
        elif key == 'shift':
            coordSys = coordSys.shiftLocal(value)
        elif key in rots:
            coordSys = coordSys.rotateLocal(rots[key](value))
    return coordSys
'''), (PA, ('parse_surface',), '''
def parse_surface(config):
    config = dict(config)
    typ = config.pop('type')
    if typ == 'Sum':
        return batoid.Sum([parse_surface(c) for c in config['items']])
    return getattr(batoid, typ)(**config)
'''), (PA, ('parse_medium',), '''
def parse_medium(config):
    from numbers import Real
    if config is None or isinstance(config, batoid.Medium):
        return config
    if isinstance(config, Real):
        return batoid.ConstMedium(config)
    kwargs = {k: v for k, v in config.items() if k != 'type'}
    return getattr(batoid, config['type'])(**kwargs)
'''), (PA, ('parse_obscuration',), '''
def parse_obscuration(config):
    config = dict(**config)
    typ = config.pop('type')
    simple = {
        'ObscCircle': batoid.ObscCircle,
        'ObscAnnulus': batoid.ObscAnnulus,
        'ObscRay': batoid.ObscRay,
        'ObscRectangle': batoid.ObscRectangle,
        'ObscPolygon': batoid.ObscPolygon,
    }
    if typ in simple:
        return simple[typ](**config)
    if typ == 'ObscNegation':
        return batoid.ObscNegation(parse_obscuration(config['original']))
    if typ in ('ObscUnion', 'ObscIntersection'):
        cls = batoid.ObscUnion if typ == 'ObscUnion' else batoid.ObscIntersection
        return cls([parse_obscuration(c) for c in config['items']])
    if typ.startswith('Clear'):
        config['type'] = typ.replace('Clear', 'Obsc')
        return batoid.ObscNegation(parse_obscuration(config))
    raise ValueError(f"Unknown obscuration type {typ}")
''')])
SF = 'batoid/surface.py'
refac('surface-eq', 'P21 P05 P04', [
    (SF, ('Quadric.__eq__',), '''
def __eq__(self, rhs):
    return isinstance(rhs, Quadric) and (self.R, self.conic) == (rhs.R, rhs.conic)
'''), (SF, ('Zernike.__eq__',), '''
def __eq__(self, rhs):
    if not isinstance(rhs, Zernike):
        return False
    scalars = ['R_outer', 'R_inner', 'x_origin', 'y_origin']
    for name in scalars:
        if getattr(self, name) != getattr(rhs, name):
            return False
    return np.array_equal(self.coef, rhs.coef)
'''), (SF, ('Surface.normal',), '''
def normal(self, x, y):
    scalar = not hasattr(x, '__len__')
    xx = np.asfortranarray(x, dtype=float)
    yy = np.asfortranarray(y, dtype=float)
    out = np.empty(xx.shape+(3,), order='F', dtype=float)
    self._surface.normal(xx.ctypes.data, yy.ctypes.data, xx.size, out.ctypes.data)
    if scalar:
        return out[0]
    return out
''')])
A = 'batoid/analysis.py'
refac('spot-centroid', 'P25', [
    (A, ('spot',), """
def _reference(rays, nx, reference):
    if reference == 'mean':
        good = ~rays.vignetted
        return np.mean(rays.r[good], axis=0)
    if reference == 'chief':
        middle = (nx//2)*(nx + 1) if nx % 2 == 0 else nx*nx//2
        return rays.r[middle]
    return np.zeros(3)


def spot(
    optic, theta_x, theta_y, wavelength,
    projection='postel', nx=32, reference='chief'
):
    rays = batoid.RayVector.asGrid(
        optic=optic, wavelength=wavelength, nx=nx,
        theta_x=theta_x, theta_y=theta_y, projection=projection
    )
    rays = optic.trace(rays)
    rays.toCoordSys(rays.coordSys.shiftLocal(_reference(rays, nx, reference)))
    good = np.logical_not(rays.vignetted)
    return rays.x[good], rays.y[good]
""")])
refac('horner-powers', 'P05 P04 P24', [
    ('src/polynomialSurface.cpp', '''        double result = 0.0;
        for (int i=n-1; i>=0; i--) {
            result *= x;
            result += coefs[i];
        }
        return result;
''', '''        double result = 0.0;
        double xi = 1.0;
        for (size_t i=0; i<n; i++) {
            result += coefs[i]*xi;
            xi *= x;
        }
        return result;
''')])
refac('asphere-dzdr-horner', 'P04 P24', [
    ('src/asphere.cpp', '''        double result = Quadric::_dzdr(r);
        double rr = r*r;
        double rrr = r;
        for (int i=0; i<_size; i++) {
            result += _dzdrcoefs[i]*rrr;
            rrr *= rr;
        }
        return result;
''', '''        double rr = r*r;
        double poly = 0.0;
        for (int i=int(_size)-1; i>=0; i--) {
            poly = poly*rr + _dzdrcoefs[i];
        }
        return Quadric::_dzdr(r) + r*poly;
''')])

# --- second batch: C++ ---------------------------------------------------------------------------
ROOTS = '''
    // Roots of a dt^2 + b dt + c, without cancellation; false if there are none.
    static bool roots(double a, double b, double c, double& dt1, double& dt2) {
        const double discriminant = b*b - 4*a*c;
        if (discriminant < 0)
            return false;
        const double s = sqrt(discriminant);
        const double q = (b > 0) ? -b - s : -b + s;
        const double p = q/(2*a);
        if (b > 0) {
            dt1 = p;
            dt2 = 2*c/q;
        } else {
            dt1 = (q == 0) ? p : 2*c/q;
            dt2 = p;
        }
        return true;
    }
'''
OLDROOTS = '''        double discriminant = b*b - 4*a*c;

        if (discriminant < 0)
            return false;

        double dt1, dt2;
        if (b > 0) {
            double q = -b - sqrt(discriminant);
            dt1 = q / (2*a);
            dt2 = 2*c / q;
        } else {
            double q = -b + sqrt(discriminant);
            dt2 = q / (2*a);
            dt1 = (q == 0) ? dt2 : 2*c / q;
        }
'''
refac('sphere-roots', 'P03 P24', [
    ('src/sphere.cpp', 'namespace batoid {\n', 'namespace batoid {\n' + ROOTS),
    ('src/sphere.cpp', OLDROOTS, '''        double dt1, dt2;
        if (!roots(a, b, c, dt1, dt2))
            return false;
''')])
refac('paraboloid-roots', 'P03 P24', [
    ('src/paraboloid.cpp', 'namespace batoid {\n', 'namespace batoid {\n' + ROOTS),
    ('src/paraboloid.cpp', OLDROOTS.replace('        double dt1, dt2;\n', ''), '''        if (!roots(a, b, c, dt1, dt2))
            return false;
'''),
    ('src/paraboloid.cpp', '''        dt = (vz*_R < 0) ? std::max(dt1, dt2) : std::min(dt1, dt2);
        return true;
''', '''        const bool late = vz*_R < 0;
        const bool ordered = dt1 < dt2;
        dt = (late == ordered) ? dt2 : dt1;
        return true;
''')])
refac('sphere-abc', 'P03 P24', [
    ('src/sphere.cpp', '''        double vr2 = vx*vx + vy*vy;
        double vz2 = vz*vz;
        double vrr0 = vx*x + vy*y;
        double r02 = x*x + y*y;
        double z0term = z-_R;

        double a = vz2 + vr2;
        double b = 2*vz*z0term + 2*vrr0;
        double c = z0term*z0term - _Rsq + r02;
''', '''        // vector from the centre of the sphere
        const double w = z-_R;
        const double a = vx*vx + vy*vy + vz*vz;
        const double b = 2*(vx*x + vy*y + vz*w);
        const double c = x*x + y*y + w*w - _R*_R;
''')])
refac('quadric-sheet', 'P03 P24', [
    ('src/quadric.cpp', '''        if (sheet1 != sheet2)
            dt = sheet1 ? dt1 : dt2;
        else
            dt = (std::abs(z1) < std::abs(z2)) ? dt1 : dt2;
        return true;
''', '''        bool first;
        if (sheet1 && !sheet2)
            first = true;
        else if (sheet2 && !sheet1)
            first = false;
        else
            first = std::abs(z1) < std::abs(z2);
        if (first)
            dt = dt1;
        else
            dt = dt2;
        return true;
''')])
refac('sphere-normal', 'P04 P24', [
    ('src/sphere.cpp', '''            double r = sqrt(rsqr);
            double dzdr = _dzdr(r);
            nz = 1/sqrt(1+dzdr*dzdr);
            nx = -x/r*dzdr*nz;
            ny = -y/r*dzdr*nz;
''', '''            const double slope = _dzdr(sqrt(rsqr))/sqrt(rsqr);
            const double px = slope*x;
            const double py = slope*y;
            nz = 1/sqrt(1+px*px+py*py);
            nx = -px*nz;
            ny = -py*nz;
''')])
refac('paraboloid-normal', 'P04 P24', [
    ('src/paraboloid.cpp', '''            nz = 1/std::sqrt(1+(x*x+y*y)*_Rinv*_Rinv);
            nx = -x*_Rinv*nz;
            ny = -y*_Rinv*nz;
''', '''            const double gx = x/_R, gy = y/_R;
            const double len = std::sqrt(1 + gx*gx + gy*gy);
            nx = -gx/len;
            ny = -gy/len;
            nz = 1/len;
''')])
refac('sag-forms', 'P05 P03', [
    ('src/sphere.cpp', 'return _R*(1-std::sqrt(1-(x*x + y*y)*_Rinvsq));', '''{
            const double r2 = x*x + y*y;
            return _R - _R*std::sqrt(1 - r2/_Rsq);
        }'''),
    ('src/paraboloid.cpp', '''        if (_R != 0) {
            double r2 = x*x + y*y;
            return r2*_2Rinv;
        }
        return 0.0;
''', '''        return (_R == 0) ? 0.0 : 0.5*(x*x + y*y)/_R;
'''),
    ('src/quadric.cpp', '''        double r2 = x*x + y*y;
        if (_R != 0)
            return r2/(_R*(1.+std::sqrt(1.-r2*_cp1RR)));
        return 0.0;
''', '''        if (_R == 0)
            return 0.0;
        const double r2 = x*x + y*y;
        const double root = std::sqrt(1. - r2*_cp1/_Rsq);
        return r2/(_R + _R*root);
''')])
refac('obsc-rotate', 'P12 P24', [
    (O, '''        ObscRectangle::ObscRectangle(double w''', '''        // coordinates of (x, y) in a frame turned by the angle with sine s and cosine c
        static inline void turn(double x, double y, double s, double c, double& xp, double& yp) {
            xp = x*c + y*s;
            yp = y*c - x*s;
        }

        ObscRectangle::ObscRectangle(double w'''),
    (O, '''            double xp = (x-_x0)*_cth + (y-_y0)*_sth;
            double yp = -(x-_x0)*_sth + (y-_y0)*_cth;
            return (xp > -_width/2 && xp < _width/2 && yp > -_height/2 && yp < _height/2);
''', '''            double xp, yp;
            turn(x-_x0, y-_y0, _sth, _cth, xp, yp);
            return std::abs(2*xp) < _width && std::abs(2*yp) < _height;
'''), (O, '''            double xp = (x-_x0)*_cth + (y-_y0)*_sth;
            double yp = -(x-_x0)*_sth + (y-_y0)*_cth;
            return (xp > 0.0 && yp > -_width/2 && yp < _width/2);
''', '''            double xp, yp;
            turn(x-_x0, y-_y0, _sth, _cth, xp, yp);
            if (xp <= 0.0)
                return false;
            const double half = _width/2;
            return -half < yp && yp < half;
''')])
refac('circle-square', 'P12 P24', [
    (O, 'return std::hypot(x-_x0, y-_y0) < _radius;', '''const double dx = x-_x0, dy = y-_y0;
            return std::sqrt(dx*dx + dy*dy) < _radius;'''),
    (O, 'return !_original->contains(x, y);', '''const bool in = _original->contains(x, y);
            return in ? false : true;''')])
refac('polygon-merged', 'P12 P24', [
    (O, '''                if (y > std::min(y1,y2)) {
                    if (y <= std::max(y1,y2)) {
                        if (x <= std::max(x1,x2)) {
                            if (y1 != y2) {
                                xinters = (y-y1)*(x2-x1)/(y2-y1)+x1;
                            }
                            if (x1 == x2 or x <= xinters) {
                                inside = !inside;
                            }
                        }
                    }
                }
''', '''                const bool crosses = y > std::min(y1,y2) && y <= std::max(y1,y2);
                if (crosses && x <= std::max(x1,x2)) {
                    xinters = x1 + (x2-x1)/(y2-y1)*(y-y1);
                    inside ^= (x1 == x2 || x <= xinters);
                }
''')])
refac('grid-count', 'P12 P24', [
    (O, '''            std::sort(xinters.begin(), xinters.end());
''', ''),
    (O, '''                auto xptr = std::lower_bound(xinters.begin(), xinters.end(), xgrid[i]);
                bool contained = (xptr - xinters.begin()) % 2;
                out[j*nx+i] = contained;
''', '''                int left = 0;
                for (size_t k=0; k<xinters.size(); k++)
                    if (xinters[k] < xgrid[i])
                        left++;
                out[j*nx+i] = (left % 2) == 1;
''')])
refac('grid-bounds', 'P12 P24', [
    (O, '''        double ymin = _yp[0];
        double ymax = _yp[0];
        for (int k=1; k<_size; k++) {
            if (_yp[k] < ymin)
                ymin = _yp[k];
            if (_yp[k] > ymax)
                ymax = _yp[k];
        }
''', '''        const double ymin = *std::min_element(_yp, _yp+_size);
        const double ymax = *std::max_element(_yp, _yp+_size);
''')])
R = 'src/rayVector.cpp'
PH = '''            double v2 = vxptr[i]*vxptr[i] + vyptr[i]*vyptr[i] + vzptr[i]*vzptr[i];
            double phase = (_x-xptr[i])*vxptr[i];
            phase += (_y-yptr[i])*vyptr[i];
            phase += (_z-zptr[i])*vzptr[i];
            phase /= v2;
            phase -= _t-tptr[i];
            phase *= 2 * PI / wptr[i];
'''
refac('amplitude-helper', 'P15 P24', [
    (R, 'namespace batoid {\n', '''namespace batoid {
    // phase at displacement (dx, dy, dz) and delay dt of a ray
    static double phaseAt(
        double dx, double dy, double dz, double dt,
        double vx, double vy, double vz, double w
    ) {
        const double twopi = 2 * 3.14159265358979323846;
        return twopi/w*((dx*vx + dy*vy + dz*vz)/(vx*vx + vy*vy + vz*vz) - dt);
    }

'''),
    (R, PH, '''            const double phase = phaseAt(
                _x-xptr[i], _y-yptr[i], _z-zptr[i], _t-tptr[i],
                vxptr[i], vyptr[i], vzptr[i], wptr[i]
            );
'''),
    (R, PH, '''            if (failptr[i])
                continue;
            const double phase = phaseAt(
                _x-xptr[i], _y-yptr[i], _z-zptr[i], _t-tptr[i],
                vxptr[i], vyptr[i], vzptr[i], wptr[i]
            );
''')])
refac('position-lambda', 'P15 P24', [
    (R, '''            xout[i] = xptr[i] + vxptr[i] * (_t-tptr[i]);
            yout[i] = yptr[i] + vyptr[i] * (_t-tptr[i]);
            zout[i] = zptr[i] + vzptr[i] * (_t-tptr[i]);
''', '''            const double dt = _t-tptr[i];
            auto at = [dt](double r, double v) { return r + v*dt; };
            xout[i] = at(xptr[i], vxptr[i]);
            yout[i] = at(yptr[i], vyptr[i]);
            zout[i] = at(zptr[i], vzptr[i]);
''')])
M = 'src/medium.cpp'
refac('air-terms', 'P14 P24', [
    (M, '''            double n_minus_one = (64.328 + (29498.1 / (146.0 - sigma_squared))
                                  + (255.4 / (41.0 - sigma_squared))) * 1.e-6;
            n_minus_one *= _P * (1.0 + (1.049 - 0.0157 * _T) * 1.e-6 * _P) / (720.883 * (1.0 + 0.003661 * _T));
            n_minus_one -= (0.0624 - 0.000680 * sigma_squared)/(1.0 + 0.003661 * _T) * _W * 1.e-6;
            return 1+n_minus_one;
''', '''            const double expansion = 1.0 + 0.003661 * _T;
            const double dry = 64.328 + 29498.1/(146.0 - sigma_squared) + 255.4/(41.0 - sigma_squared);
            const double density = _P * (1.0 + (1.049 - 0.0157*_T)*1.e-6*_P) / (720.883*expansion);
            const double wet = (0.0624 - 0.000680*sigma_squared)/expansion*_W;
            return 1 + (dry*density - wet)*1.e-6;
''')])
refac('table-medium-frac', 'P14 P24', [
    (M, '''            int upperIdx;
            for(upperIdx=1; upperIdx<_size; upperIdx++) {
                if (wavelength < _args[upperIdx])
                    break;
            }
            double out = (wavelength - _args[upperIdx-1]);
            out *= (_vals[upperIdx] - _vals[upperIdx-1]);
            out /= (_args[upperIdx] - _args[upperIdx-1]);
            out += _vals[upperIdx-1];
            return out;
''', '''            size_t lo = 0;
            while (lo+2 < _size && wavelength >= _args[lo+1])
                ++lo;
            const double frac = (wavelength - _args[lo])/(_args[lo+1] - _args[lo]);
            return (1-frac)*_vals[lo] + frac*_vals[lo+1];
''')])
refac('refract-vector', 'P07 P08 P11 P24', [
    (B, '''                        double nfactor = eta*alpha + sqrt(1-sinsqr);
                        vxptr[i] = eta*nvx - nfactor*nx;
                        vyptr[i] = eta*nvy - nfactor*ny;
                        vzptr[i] = eta*nvz - nfactor*nz;
                        vxptr[i] /= n2;
                        vyptr[i] /= n2;
                        vzptr[i] /= n2;
''', '''                        const double cost = sqrt(1-sinsqr);
                        const double k = (eta*alpha + cost)/n2;
                        const double mu = eta*n1/n2;
                        vxptr[i] = mu*vx - k*nx;
                        vyptr[i] = mu*vy - k*ny;
                        vzptr[i] = mu*vz - k*nz;
''')])
refac('refract-cos', 'P07 P08 P24', [
    (B, '''                    if (alpha > 0.) {
                        nx *= -1;
                        ny *= -1;
                        nz *= -1;
                        alpha *= -1;
                    }
''', '''                    const double side = (alpha > 0.) ? -1. : 1.;
                    nx *= side;
                    ny *= side;
                    nz *= side;
                    alpha *= side;
''')])
refac('intersect-flux', 'P03 P11 P08 P24', [
    (B, '''                        double n1 = vx*vx;
                        n1 += vy*vy;
                        n1 += vz*vz;
                        n1 = 1/sqrt(n1);
                        double alpha = vx*nx;
                        alpha += vy*ny;
                        alpha += vz*nz;
                        alpha *= n1;
                        fluxptr[i] *= coatingPtr->getTransmit(wptr[i], alpha);
''', '''                        const double speed = sqrt(vx*vx + vy*vy + vz*vz);
                        const double alpha = (vx*nx + vy*ny + vz*nz)/speed;
                        const double through = coatingPtr->getTransmit(wptr[i], alpha);
                        fluxptr[i] = through*fluxptr[i];
''')])
refac('transform-lambda', 'P01 P24', [
    (B, '''            double dx = xptr[i]-drptr[0];
            double dy = yptr[i]-drptr[1];
            double dz = zptr[i]-drptr[2];
            xptr[i] = dx*drotptr[0] + dy*drotptr[3] + dz*drotptr[6];
            yptr[i] = dx*drotptr[1] + dy*drotptr[4] + dz*drotptr[7];
            zptr[i] = dx*drotptr[2] + dy*drotptr[5] + dz*drotptr[8];
            double vx = vxptr[i]*drotptr[0] + vyptr[i]*drotptr[3] + vzptr[i]*drotptr[6];
            double vy = vxptr[i]*drotptr[1] + vyptr[i]*drotptr[4] + vzptr[i]*drotptr[7];
            double vz = vxptr[i]*drotptr[2] + vyptr[i]*drotptr[5] + vzptr[i]*drotptr[8];
            vxptr[i] = vx;
            vyptr[i] = vy;
            vzptr[i] = vz;
''', '''            auto column = [drotptr](int k, double a, double b, double c) {
                return a*drotptr[k] + b*drotptr[k+3] + c*drotptr[k+6];
            };
            const double r[3] = {xptr[i]-drptr[0], yptr[i]-drptr[1], zptr[i]-drptr[2]};
            const double v[3] = {vxptr[i], vyptr[i], vzptr[i]};
            xptr[i] = column(0, r[0], r[1], r[2]);
            yptr[i] = column(1, r[0], r[1], r[2]);
            zptr[i] = column(2, r[0], r[1], r[2]);
            vxptr[i] = column(0, v[0], v[1], v[2]);
            vyptr[i] = column(1, v[0], v[1], v[2]);
            vzptr[i] = column(2, v[0], v[1], v[2]);
''')])
refac('screen-basis', 'P10 P24', [
    (B, '''                    double e2x = e3y*e1z - e3z*e1y;
                    double e2y = e3z*e1x - e3x*e1z;
                    double e2z = e3x*e1y - e3y*e1x;
''', '''                    double e2x = e3y*e1z;
                    double e2y = e1norm;
                    double e2z = -e3y*e1x;
'''), (B, '''                    if (cos3 < 0) {
                        cos1 += dPd1;
                        cos2 += dPd2;
                        cos3 = -std::sqrt(1 - cos1*cos1 - cos2*cos2);
                    } else {
                        cos1 += dPd1;
                        cos2 += dPd2;
                        cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
                    }
''', '''                    cos1 += dPd1;
                    cos2 += dPd2;
                    const double rest = std::sqrt(1 - (cos1*cos1 + cos2*cos2));
                    cos3 = (cos3 < 0) ? -rest : rest;
''')])
refac('finish-global', 'P16 P24', [
    (B, '''            // rotate forward
            double dx = x[i]-dr[0];
            double dy = y[i]-dr[1];
            double dz = z[i]-dr[2];
            x[i] = dx*drot[0] + dy*drot[3] + dz*drot[6];
            y[i] = dx*drot[1] + dy*drot[4] + dz*drot[7];
            z[i] = dx*drot[2] + dy*drot[5] + dz*drot[8];
            // intersect
            double dt = -z[i]/vzlocal;
            x[i] += dt*vxlocal;
            y[i] += dt*vylocal;
            z[i] += dt*vzlocal;
            // rotate reverse
            double xx = x[i]*drot[0] + y[i]*drot[1] + z[i]*drot[2] + dr[0];
            double yy = x[i]*drot[3] + y[i]*drot[4] + z[i]*drot[5] + dr[1];
            double zz = x[i]*drot[6] + y[i]*drot[7] + z[i]*drot[8] + dr[2];
            x[i] = xx;
            y[i] = yy;
            z[i] = zz;
''', '''            const double dx = x[i]-dr[0], dy = y[i]-dr[1], dz = z[i]-dr[2];
            // into the plane's frame
            double a = dx*drot[0] + dy*drot[3] + dz*drot[6];
            double b = dx*drot[1] + dy*drot[4] + dz*drot[7];
            const double c = dx*drot[2] + dy*drot[5] + dz*drot[8];
            // along the ray to the plane, where the third coordinate vanishes
            a -= c*vxlocal/vzlocal;
            b -= c*vylocal/vzlocal;
            // back again
            x[i] = a*drot[0] + b*drot[1] + dr[0];
            y[i] = a*drot[3] + b*drot[4] + dr[1];
            z[i] = a*drot[6] + b*drot[7] + dr[2];
''')])
refac('rsplit-frozen', 'P09 P08 P24', [
    (B, '''                    vxptr2[i] = vx - 2*alpha*nx/n1;
                    vyptr2[i] = vy - 2*alpha*ny/n1;
                    vzptr2[i] = vz - 2*alpha*nz/n1;
                    tptr2[i] = t;
                    wptr2[i] = wptr[i];
                    fluxptr2[i] = fluxptr[i]*reflect;
                    vigptr2[i] = vigptr[i];
                    failptr2[i] = failptr[i];
''', '''                    const double twice = 2*alpha/n1;
                    vxptr2[i] = vx - twice*nx;
                    vyptr2[i] = vy - twice*ny;
                    vzptr2[i] = vz - twice*nz;
                    tptr2[i] = t;
                    const double w = wptr[i];
                    wptr2[i] = w;
                    fluxptr2[i] = reflect*fluxptr[i];
                    vigptr2[i] = vigptr[i];
                    failptr2[i] = false;
'''), (B, '''                } else {
                    vigptr[i] = true;
                    failptr[i] = true;
                    vigptr2[i] = true;
                    failptr2[i] = true;
                }
''', '''                } else {
                    failptr2[i] = failptr[i] = true;
                    vigptr2[i] = vigptr[i] = true;
                }
''')])

# --- second batch: Python ------------------------------------------------------------------------
RVP = 'batoid/rayVector.py'
OPT = 'batoid/optic.py'
UT = 'batoid/utils.py'
AN = 'batoid/analysis.py'
PA = 'batoid/parse.py'
refac('coordsys-matmul', 'P02 P01 P20', [
    ('batoid/coordSys.py', ('CoordSys.rotateGlobal',), '''
def rotateGlobal(self, rot, rotCenter=(0,0,0), coordSys=None):
    frame = CoordSys() if coordSys is None else coordSys
    center = frame.toGlobal(rotCenter)
    arm = self.origin - center
    return CoordSys(center + np.dot(rot, arm), np.dot(rot, self.rot))
'''), ('batoid/coordSys.py', ('CoordSys.rotateLocal',), '''
def rotateLocal(self, rot, rotCenter=(0,0,0), coordSys=None):
    """Return new CoordSys rotated with respect to local axes."""
    if coordSys is None:
        coordSys = self
    return self.rotateGlobal(self.rot@rot@self.rot.T, rotCenter, coordSys)._respun(self.rot@rot)

def _respun(self, rot):
    return CoordSys(self.origin, rot)
'''), ('batoid/coordSys.py', ('CoordSys.toLocal',), '''
def toLocal(self, v):
    d = np.asarray(v, dtype=float) - self.origin
    return np.dot(d, self.rot)
'''), ('batoid/coordSys.py', ('CoordSys.shiftLocal',), '''
def shiftLocal(self, dr):
    return CoordSys(self.origin + np.dot(self.rot, dr), self.rot)
''')])
refac('transform-einsum', 'P01', [
    ('batoid/coordTransform.py', ('CoordTransform.applyForwardArray',), '''
def applyForwardArray(self, x, y, z):
    r = np.array([x, y, z], dtype=float, copy=True)
    d = (r.T - self.dr).T
    return np.einsum('ji,j...->i...', self.drot, d)
'''), ('batoid/coordTransform.py', ('CoordTransform.__init__',), '''
def __init__(self, fromSys, toSys):
    toFrom = fromSys.rot.T
    self.fromSys, self.toSys = fromSys, toSys
    self.dr = np.dot(toFrom, toSys.origin - fromSys.origin)
    self.drot = np.dot(toFrom, toSys.rot)
''')])
refac('lattice-einsum', 'P23', [
    ('batoid/lattice.py', ('primitiveToLattice',), '''
def primitiveToLattice(primitiveVectors, Ns):
    axes = [np.arange(n) - n//2 for n in Ns]
    grid = np.stack(np.meshgrid(*axes, indexing='ij'), axis=-1)
    return grid@np.asarray(primitiveVectors)
''')])
refac('reciprocal-det', 'P23 P25', [
    (AN, ('_reciprocalLatticeVectors',), '''
def _reciprocalLatticeVectors(a1, a2, N):
    det = a1[0]*a2[1] - a1[1]*a2[0]
    scale = 2*np.pi/(N*det)
    return np.array([scale*a2[1], -scale*a2[0]]), np.array([-scale*a1[1], scale*a1[0]])
''')])
refac('projections-inline', 'P17', [
    (UT, ('gnomonicToDirCos',), '''
def gnomonicToDirCos(u, v):
    norm = np.sqrt(1.0 + (u*u + v*v))
    return u/norm, v/norm, -1/norm
'''), (UT, ('zemaxToDirCos',), '''
def zemaxToDirCos(u, v):
    return gnomonicToDirCos(np.tan(u), np.tan(v))
'''), (UT, ('dirCosToZemax',), '''
def dirCosToZemax(alpha, beta, gamma):
    u, v = dirCosToGnomonic(alpha, beta, gamma)
    return np.arctan(u), np.arctan(v)
'''), (UT, ('orthographicToDirCos',), '''
def orthographicToDirCos(u, v):
    return u, v, -np.sqrt(1 - (u*u + v*v))
'''), (UT, ('fieldToDirCos',), '''
def fieldToDirCos(u, v, projection='postel'):
    table = {
        'postel': postelToDirCos,
        'zemax': zemaxToDirCos,
        'gnomonic': gnomonicToDirCos,
        'stereographic': stereographicToDirCos,
        'lambert': lambertToDirCos,
        'orthographic': orthographicToDirCos,
    }
    if projection not in table:
        raise ValueError("Bad projection: {}".format(projection))
    return table[projection](u, v)
''')])
refac('stereographic-rational', 'P17', [
    (UT, ('stereographicToDirCos',), '''
def stereographicToDirCos(u, v):
    q = (u*u + v*v)/4
    scale = 1/(1 + q)
    return u*scale, v*scale, (q - 1)*scale
'''), (UT, ('lambertToDirCos',), '''
def lambertToDirCos(u, v):
    rhosqr = u*u + v*v
    scale = np.sqrt(1 - rhosqr/4)
    return u*scale, v*scale, rhosqr/2 - 1
''')])
refac('bilinear-stack', 'P25', [
    (UT, ('bilinear_fit',), '''
def bilinear_fit(ux, uy, kx, ky):
    a = np.column_stack([np.ones(len(ux)), ux, uy])
    b = np.column_stack([kx, ky])
    return np.linalg.lstsq(a, b, rcond=-1)[0]
''')])
refac('hexapolar-concat', 'P16', [
    (UT, ('hexapolar',), '''
def hexapolar(outer=1.0, inner=0.0, nrad=5, naz=30, kfold=6, rth=False):
    rhos = np.linspace(outer, inner, nrad)
    nphis = [int((naz*rho/outer)//kfold)*kfold or kfold for rho in rhos]
    center = rhos[-1] == 0.0
    if center:
        nphis[-1] = 1
    rr = np.concatenate([np.full(nphi, rho) for rho, nphi in zip(rhos, nphis)])
    th = np.concatenate([np.linspace(0, 2*np.pi, nphi, endpoint=False) for nphi in nphis])
    if rth:
        return rr, th
    return rr*np.cos(th), rr*np.sin(th)
''')])
refac('finish-full', 'P16 P24', [
    (RVP, '''            vx = np.full_like(x, vv[0])
            vy = np.full_like(y, vv[1])
            vz = np.full_like(z, vv[2])
            t = np.zeros(len(x), dtype=float)
            vignetted = np.zeros(len(x), dtype=bool)
            failed = np.zeros(len(x), dtype=bool)
            return RayVector._directInit(
                x, y, z, vx, vy, vz, t, w,
                flux, vignetted, failed, coordSys
            )
''', '''            n = len(x)
            vx, vy, vz = (np.full(n, c) for c in vv)
            return RayVector._directInit(
                x, y, z, vx, vy, vz,
                np.zeros(n), w, flux,
                np.zeros(n, dtype=bool), np.zeros(n, dtype=bool),
                coordSys
            )
'''), (RVP, '''            vv /= n*np.sqrt(np.dot(vv, vv))
''', '''            speed = np.linalg.norm(vv)
            vv = vv/(n*speed)
''')])
refac('grid-linspace', 'P16', [
    (RVP, '''            xx = np.fft.fftshift(np.fft.fftfreq(nx, x_d))
            yy = np.fft.fftshift(np.fft.fftfreq(ny, y_d))
''', '''            xx = (np.arange(nx) - nx//2)/(nx*x_d)
            yy = (np.arange(ny) - ny//2)/(ny*y_d)
''')])
refac('getitem-resolve', 'P18 P24', [
    (RVP, ('RayVector.__getitem__',), '''
def __getitem__(self, idx):
    if isinstance(idx, Integral):
        size = self._t.size
        if not -size <= idx < size:
            raise IndexError(f"index {idx} is out of bounds for axis 0 with size {size}")
        idx = idx % size
        idx = slice(idx, idx+1)
    self._syncToHost()
    cols = [
        self._x, self._y, self._z, self._vx, self._vy, self._vz,
        self._t, self._wavelength, self._flux, self._vignetted, self._failed
    ]
    return RayVector._directInit(*[np.copy(c[idx]) for c in cols], self.coordSys)
''')])
refac('rv-state', 'P18 P21', [
    (RVP, ('RayVector.__getstate__',), '''
def __getstate__(self):
    self._syncToHost()
    names = [
        'x', 'y', 'z', 'vx', 'vy', 'vz', 't',
        'wavelength', 'flux', 'vignetted', 'failed'
    ]
    return tuple(getattr(self, '_'+n) for n in names) + (self.coordSys,)
'''), (RVP, ('RayVector.__setstate__',), '''
def __setstate__(self, args):
    names = [
        '_x', '_y', '_z', '_vx', '_vy', '_vz', '_t',
        '_wavelength', '_flux', '_vignetted', '_failed', 'coordSys'
    ]
    for name, value in zip(names, args):
        setattr(self, name, value)
'''), (RVP, ('RayVector.__eq__',), '''
def __eq__(self, rhs):
    if not isinstance(rhs, RayVector): return False
    if len(self) != len(rhs) or self.coordSys != rhs.coordSys:
        return False
    return self._rv == rhs._rv
''')])
refac('rv-stack', 'P18 P15', [
    (RVP, ('RayVector.k',), '''
def k(self):
    v = self.v
    factor = 2*np.pi/(self.wavelength*np.einsum('ij,ij->i', v, v))
    return factor[:, None]*v
'''), (RVP, ('RayVector.positionAtTime',), '''
def positionAtTime(self, t):
    from .global_vars import _batoid_max_threads
    n = len(self._x)
    out = [np.empty(n) for _ in range(3)]
    self._rv.positionAtTime(t, *[a.ctypes.data for a in out], _batoid_max_threads)
    return np.stack(out, axis=-1)
''')])
refac('optic-trace', 'P19 P13', [
    (OPT, ('CompoundOptic.trace',), '''
def trace(self, rv, reverse=False, path=None):
    if path is None:
        order = self.items[::-1] if reverse else self.items
        for item in order:
            if item.skip:
                continue
            item.trace(rv, reverse=reverse)
        return rv
    rank = {}
    for name in path:
        rank.setdefault(name, len(rank))
    backwards = False
    last = len(path) - 1
    for i, name in enumerate(path):
        item = self[name]
        if i < last:
            nextBackwards = rank[path[i+1]] < rank[name]
        else:
            nextBackwards = True if rank[name] == 0 else backwards
        if backwards == nextBackwards:
            item.trace(rv, reverse=backwards)
        else:
            backwards = nextBackwards
            item.surface.reflect(rv, coordSys=item.coordSys)
            if item.obscuration:
                item.obscuration.obscure(rv)
    return rv
''')])
refac('optic-tracesplit', 'P19 P13', [
    (OPT, ('CompoundOptic.traceSplit',), '''
def traceSplit(self, rv, minFlux=1e-3, reverse=False, _verbose=False):
    """Recursively trace through this optic, splitting rays at each interface."""
    if _verbose:
        s = "reverse" if reverse else "forward"
        strtemplate = ("traceSplit {}       {:30s} "
                       "flux = {:18.8f}   nphot = {:10d}")
        print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
    if self.skip:
        if not hasattr(rv, 'path'):
            rv.path = []
        return ([], [rv]) if reverse else ([rv], [])

    last = len(self.items)-1
    todo = [(rv, 'reverse', last) if reverse else (rv, 'forward', 0)]
    done = {'forward': [], 'reverse': []}
    while todo:
        rays, direction, idx = todo.pop()
        split = self.items[idx].traceSplit(
            rays, minFlux=minFlux, reverse=(direction == 'reverse'), _verbose=_verbose
        )
        for sense, step, end, bundle in zip(('forward', 'reverse'), (1, -1), (last, 0), split):
            for rr in bundle:
                if not rr:
                    continue
                w = (~rr.vignetted) & (rr.flux >= minFlux)
                kept = RayVector(
                    rr.x[w], rr.y[w], rr.z[w],
                    rr.vx[w], rr.vy[w], rr.vz[w],
                    rr.t[w], rr.wavelength[w], rr.flux[w],
                    rr.vignetted[w], rr.failed[w],
                    rr.coordSys
                )
                kept.path = rr.path
                if len(kept) == 0:
                    continue
                if idx == end:
                    done[sense].append(kept)
                else:
                    todo.append((kept, sense, idx+step))
    return done['forward'], done['reverse']
''')])
refac('optic-shift-map', 'P20', [
    (OPT, ('CompoundOptic.withGloballyShiftedOptic',), '''
def withGloballyShiftedOptic(self, name, shift):
    """Return a new CompoundOptic with a component shifted along global axes."""
    full = self._names.get(name, name)
    if full not in self.itemDict:
        raise ValueError("Optic {} not found".format(full))
    if full == self.name:
        return self.withGlobalShift(shift)
    prefix = self.name+"."
    assert full.startswith(prefix), full
    rest = full[len(prefix):]
    kwargs = {k: v for k, v in self.__dict__.items() if k != 'items'}
    items = list(self.items)
    for i, item in enumerate(items):
        if rest == item.name:
            items[i] = item.withGlobalShift(shift)
        elif rest.startswith(item.name+"."):
            items[i] = item.withGloballyShiftedOptic(rest, shift)
        else:
            continue
        return self.__class__(items, **kwargs)
    raise RuntimeError("Error in withGloballyShiftedOptic!, Shouldn't get here!")
''')])
refac('optic-rotation-compr', 'P20', [
    (OPT, ('CompoundOptic.withGlobalRotation',), '''
def withGlobalRotation(self, rot, rotCenter=None, coordSys=None):
    """Return a new CompoundOptic rotated in the global frame."""
    rotCenter = [0,0,0] if rotCenter is None else rotCenter
    coordSys = globalCoordSys if coordSys is None else coordSys
    turn = lambda optic: optic.withGlobalRotation(rot, rotCenter, coordSys)
    kwargs = {k: v for k, v in self.__dict__.items() if k != 'items'}
    kwargs['coordSys'] = self.coordSys.rotateGlobal(rot, rotCenter, coordSys)
    if 'stopSurface' in kwargs:
        kwargs['stopSurface'] = turn(kwargs['stopSurface'])
    return self.__class__([turn(item) for item in self.items], **kwargs)
'''), (OPT, ('Interface.withGlobalShift',), '''
def withGlobalShift(self, shift):
    """Return a new Interface shifted along global axes."""
    kwargs = dict(self.__dict__)
    surface = kwargs.pop('surface')
    kwargs.update(coordSys=self.coordSys.shiftGlobal(shift))
    stop = kwargs.get('stopSurface')
    if stop is not None:
        kwargs['stopSurface'] = stop.withGlobalShift(shift)
    return self.__class__(surface, **kwargs)
''')])
refac('optic-repr', 'P21', [
    (OPT, ('CompoundOptic.__repr__',), '''
def __repr__(self):
    items = ", ".join(repr(item) for item in self.items)
    return f"{self.__class__.__name__}([{items}]" + Optic._repr_helper(self) + ")"
'''), (OPT, ('Interface.__hash__',), '''
def __hash__(self):
    parts = [self.__class__.__name__, self.surface, self.obscuration, self.name]
    parts += [self.inMedium, self.outMedium, self.coordSys]
    return hash(tuple(parts))
''')])
refac('parse-dispatch', 'P22', [
    (PA, ('parse_surface',), '''
def parse_surface(config):
    params = {k: v for k, v in config.items() if k != 'type'}
    typ = config['type']
    if typ == 'Sum':
        return batoid.Sum(list(map(parse_surface, params['items'])))
    return getattr(batoid, typ)(**params)
'''), (PA, ('parse_medium',), '''
def parse_medium(config):
    from numbers import Real
    if config is None or isinstance(config, batoid.Medium):
        return config
    if isinstance(config, Real):
        return batoid.ConstMedium(config)
    params = dict(config)
    return getattr(batoid, params.pop('type'))(**params)
'''), (PA, ('parse_coordSys',), '''
def parse_coordSys(config, coordSys=batoid.CoordSys()):
    axes = {'x': 0, 'y': 1, 'z': 2}
    turns = {'rotX': batoid.RotX, 'rotY': batoid.RotY, 'rotZ': batoid.RotZ}
    for k, v in config.items():
        if k in axes:
            dr = [0.0, 0.0, 0.0]
            dr[axes[k]] = v
            coordSys = coordSys.shiftLocal(dr)
        elif k == 'shift':
            coordSys = coordSys.shiftLocal(v)
        elif k in turns:
            coordSys = coordSys.rotateLocal(turns[k](v))
    return coordSys
''')])
refac('sellmeier-init', 'P14 P21 P22', [
    ('batoid/medium.py', ('SellmeierMedium.__init__',), '''
def __init__(self, *args, **kwargs):
    if len(args) == 1:
        args = args[0]
    elif len(args) != 6:
        if not kwargs:
            raise ValueError("Incorrect number of arguments")
        args = (kwargs['B1'], kwargs['B2'], kwargs['B3'], kwargs['C1'], kwargs['C2'], kwargs['C3'])
    self.coefs = tuple(args)
    self._medium = _batoid.CPPSellmeierMedium(*self.coefs)
''')])
refac('spot-chief', 'P25', [
    (AN, ('drdth',), '''
def drdth(
    optic,
    theta_x, theta_y, wavelength,
    nrad=6, naz=36,
    projection='postel'
):
    dth = 1e-5
    bundles = []
    for dx, dy in [(0, 0), (dth, 0), (0, dth)]:
        bundles.append(batoid.RayVector.asPolar(
            optic=optic, wavelength=wavelength,
            dirCos=fieldToDirCos(theta_x+dx, theta_y+dy, projection=projection),
            nrad=nrad, naz=naz
        ))
    n = len(bundles[0])
    rays = batoid.concatenateRayVectors(bundles)
    optic.trace(rays)
    nominal, plusx, plusy = rays[:n], rays[n:2*n], rays[2*n:3*n]
    w = ~nominal.vignetted
    jac = np.empty((2, 2))
    for j, other in enumerate([plusx, plusy]):
        jac[0, j] = (np.mean(other.x[w]) - np.mean(nominal.x[w]))/dth
        jac[1, j] = (np.mean(other.y[w]) - np.mean(nominal.y[w]))/dth
    return jac
''')])
refac('wavefront-chief', 'P25', [
    (AN, ('wavefront',), '''
def wavefront(
    optic,
    theta_x, theta_y, wavelength,
    projection='postel',
    nx=32, sphereRadius=None, reference='chief'
):
    rays = batoid.RayVector.asGrid(
        optic=optic, wavelength=wavelength, nx=nx,
        dirCos=fieldToDirCos(theta_x, theta_y, projection=projection)
    )
    radius = optic.sphereRadius if sphereRadius is None else sphereRadius
    optic.trace(rays)
    even = nx % 2 == 0
    if reference == 'mean':
        point = rays.r[~rays.vignetted].mean(axis=0)
    elif reference == 'chief':
        chief = (nx//2)*nx + nx//2
        point = rays.r[chief]
    target = rays.coordSys.shiftLocal(point + np.array([0, 0, radius]))
    rays.toCoordSys(target)
    batoid.Sphere(-radius).intersect(rays)
    if reference == 'mean':
        t0 = np.mean(rays.t[~rays.vignetted])
    elif reference == 'chief':
        t0 = rays.t[chief]
    opd = np.ma.masked_array((t0-rays.t)/wavelength, mask=rays.vignetted).reshape(nx, nx)
    step = optic.pupilSize/(nx - (2 if even else 1))
    return batoid.Lattice(opd, np.vstack([[step, 0], [0, step]]))
''')])
refac('zernike-rank', 'P25', [
    (AN, ('doubleZernike',), '''
def doubleZernike(
    optic, field, wavelength, rings=6, spokes=None, kmax=22, **kwargs
):
    if spokes is None:
        spokes = 2*rings+1
    nodes, weights = np.polynomial.legendre.leggauss(rings)
    radii = field*np.sqrt((1 + nodes)/2)
    weights = weights*np.pi/(2*spokes)
    azs = np.linspace(0, 2*np.pi, spokes, endpoint=False)
    radii, azs = np.meshgrid(radii, azs)
    weights = np.broadcast_to(weights, radii.shape).ravel()
    thx = (radii*np.cos(azs)).ravel()
    thy = (radii*np.sin(azs)).ravel()
    coefs = np.array([
        zernikeGQ(optic, tx, ty, wavelength, rings=rings, spokes=spokes, **kwargs)
        for tx, ty in zip(thx, thy)
    ])
    basis = zernikeBasis(kmax, thx, thy, R_outer=field)
    return np.dot(basis, weights[:, None]*coefs)/np.pi
''')])
refac('obsc-eq', 'P21 P12', [
    ('batoid/obscuration.py', ('ObscCircle.__eq__',), '''
def __eq__(self, rhs):
    if type(rhs) is not type(self):
        return False
    return (self.radius, self.x, self.y) == (rhs.radius, rhs.x, rhs.y)
'''), ('batoid/obscuration.py', ('Obscuration.contains',), '''
def contains(self, x, y):
    xx, yy = np.broadcast_arrays(
        np.asarray(x, dtype=float, order="C"), np.asarray(y, dtype=float, order="C")
    )
    return self._obsc.contains(xx, yy)
''')])


# --- third batch: other parts of the language ------------------------------------------------------
FWD = '''            double dx = xptr[i]-drptr[0];
            double dy = yptr[i]-drptr[1];
            double dz = zptr[i]-drptr[2];
            xptr[i] = dx*drotptr[0] + dy*drotptr[3] + dz*drotptr[6];
            yptr[i] = dx*drotptr[1] + dy*drotptr[4] + dz*drotptr[7];
            zptr[i] = dx*drotptr[2] + dy*drotptr[5] + dz*drotptr[8];
            double vx = vxptr[i]*drotptr[0] + vyptr[i]*drotptr[3] + vzptr[i]*drotptr[6];
            double vy = vxptr[i]*drotptr[1] + vyptr[i]*drotptr[4] + vzptr[i]*drotptr[7];
            double vz = vxptr[i]*drotptr[2] + vyptr[i]*drotptr[5] + vzptr[i]*drotptr[8];
            vxptr[i] = vx;
            vyptr[i] = vy;
            vzptr[i] = vz;
'''
refac('cx-localarrays', 'P01 P24', [(B, FWD, '''            const double d[3] = {xptr[i]-drptr[0], yptr[i]-drptr[1], zptr[i]-drptr[2]};
            const double w[3] = {vxptr[i], vyptr[i], vzptr[i]};
            double* const rout[3] = {xptr, yptr, zptr};
            double* const vout[3] = {vxptr, vyptr, vzptr};
            for (int k=0; k<3; k++) {
                double rk = 0.0, vk = 0.0;
                for (int j=0; j<3; j++) {
                    rk += d[j]*drotptr[3*j+k];
                    vk += w[j]*drotptr[3*j+k];
                }
                rout[k][i] = rk;
                vout[k][i] = vk;
            }
''')])
refac('cx-stdarray', 'P01 P24', [(B, 'namespace batoid {\n\n\n    void applyForwardTransformArrays(', '''#include <array>

namespace batoid {

    namespace {
        using Vec = std::array<double, 3>;

        inline Vec rotatedBack(const double* m, const Vec& v) {
            return {
                v[0]*m[0] + v[1]*m[3] + v[2]*m[6],
                v[0]*m[1] + v[1]*m[4] + v[2]*m[7],
                v[0]*m[2] + v[1]*m[5] + v[2]*m[8]
            };
        }
    }


    void applyForwardTransformArrays('''), (B, FWD, '''            const Vec d{xptr[i]-drptr[0], yptr[i]-drptr[1], zptr[i]-drptr[2]};
            const Vec r = rotatedBack(drotptr, d);
            const auto v = rotatedBack(drotptr, {vxptr[i], vyptr[i], vzptr[i]});
            xptr[i] = r[0];
            yptr[i] = r[1];
            zptr[i] = r[2];
            vxptr[i] = v[0];
            vyptr[i] = v[1];
            vzptr[i] = v[2];
''')])
refac('cx-struct', 'P06 P08 P24', [(B, 'namespace batoid {\n\n\n    void applyForwardTransformArrays(', '''namespace batoid {

    namespace {
        struct Vec3 {
            double x, y, z;
            double dot(const Vec3& o) const { return x*o.x + y*o.y + z*o.z; }
            Vec3 operator-(const Vec3& o) const { return Vec3{x-o.x, y-o.y, z-o.z}; }
        };
        inline Vec3 operator*(double s, const Vec3& v) { return {s*v.x, s*v.y, s*v.z}; }
    }


    void applyForwardTransformArrays('''), (B, '''                    double nx, ny, nz;
                    surfacePtr->normal(x, y, nx, ny, nz);
                    // alpha = v dot normVec
                    double alpha = vx*nx;
                    alpha += vy*ny;
                    alpha += vz*nz;
                    // v -= 2 alpha normVec
                    vx -= 2*alpha*nx;
                    vy -= 2*alpha*ny;
                    vz -= 2*alpha*nz;
''', '''                    Vec3 n;
                    surfacePtr->normal(x, y, n.x, n.y, n.z);
                    const Vec3 v{vx, vy, vz};
                    double alpha = v.dot(n);
                    const Vec3 w = v - 2*alpha*n;
                    vx = w.x;
                    vy = w.y;
                    vz = w.z;
''')])
refac('cx-pair', 'P03 P24', [('src/sphere.cpp', '''        double dt1, dt2;
        if (b > 0) {
            double q = -b - sqrt(discriminant);
            dt1 = q / (2*a);
            dt2 = 2*c / q;
        } else {
            double q = -b + sqrt(discriminant);
            dt2 = q / (2*a);
            dt1 = (q == 0) ? dt2 : 2*c / q;
        }

        // If vz < 0, R > 0, want greatest time.
        dt = (vz*_R < 0) ? std::max(dt1, dt2) : std::min(dt1, dt2);
''', '''        auto roots = [&]() -> std::pair<double, double> {
            const double root = sqrt(discriminant);
            if (b > 0) {
                const double q = -b - root;
                return {q / (2*a), 2*c / q};
            }
            const double q = -b + root;
            const double late = q / (2*a);
            return std::make_pair((q == 0) ? late : 2*c / q, late);
        };
        const auto [dt1, dt2] = roots();
        const bool late = vz*_R < 0;
        dt = late == (dt1 < dt2) ? dt2 : dt1;
'''), ('src/sphere.cpp', '#include "sphere.h"', '#include "sphere.h"\n#include <utility>')])
refac('cx-upperbound', 'P14 P24', [('src/medium.cpp', '''            int upperIdx;
            for(upperIdx=1; upperIdx<_size; upperIdx++) {
                if (wavelength < _args[upperIdx])
                    break;
            }
''', '''            const auto upperIdx = std::upper_bound(_args, _args+_size, wavelength) - _args;
'''), ('src/medium.cpp', '#include "medium.h"', '#include "medium.h"\n#include <algorithm>')])
refac('cx-anyof', 'P12 P24', [('src/obscuration.cpp', '''            bool ret = false;
            for (int i=0; i<_nobsc; i++) {
                ret |= _obscs[i]->contains(x, y);
            }
            return ret;
''', '''            return std::any_of(
                _obscs, _obscs+_nobsc,
                [x, y](const Obscuration* o) { return o->contains(x, y); }
            );
''')])
refac('cx-fabs', 'P12 P24', [('src/obscuration.cpp', '''            return (xp > -_width/2 && xp < _width/2 && yp > -_height/2 && yp < _height/2);
''', '''            return std::fabs(xp) < 0.5*_width && std::fabs(yp) < 0.5*_height;
''')])
refac('cx-switch', 'P12 P24', [('src/obscuration.cpp', '''            return (_inner <= h) && (h < _outer);
''', '''            const int zone = (h < _inner) ? 0 : (h < _outer) ? 1 : 2;
            switch (zone) {
                case 1:
                    return true;
                default:
                    return false;
            }
''')])
refac('cx-pointers', 'P05 P24', [('src/polynomialSurface.cpp', '''        double result = 0.0;
        for (int i=n-1; i>=0; i--) {
            result *= x;
            result += coefs[i];
        }
        return result;
''', '''        double result = 0.0;
        const double* c = coefs + n;
        while (c != coefs) {
            --c;
            result = result*x + *c;
        }
        return result;
''')])
refac('cx-dowhile', 'P05 P24', [('src/polynomialSurface.cpp', '''        for (int i=ny-1; i>=0; i--) {
            result *= x;
            result += horner(y, coefs + (i*nx), nx);
        }
''', '''        size_t row = ny;
        while (row-- > 0) {
            result = std::fma(result, x, horner(y, &coefs[row*nx], nx));
        }
''')])
refac('cx-pow', 'P05 P04 P24', [('src/sphere.cpp', '''        if (_R != 0)
            return _R*(1-std::sqrt(1-(x*x + y*y)*_Rinvsq));
        return 0.0;
''', '''        const double rsq = std::pow(x, 2) + std::pow(y, 2);
        return (_R == 0) ? 0.0 : _R - _R*std::sqrt(1-rsq*_Rinvsq);
''')])
refac('cx-sizeloop', 'P15 P24', [('src/rayVector.cpp', '''        for(int i=0; i<size; i++) {
            xptr[i] += vxptr[i] * (_t - tptr[i]);
            yptr[i] += vyptr[i] * (_t - tptr[i]);
            zptr[i] += vzptr[i] * (_t - tptr[i]);
            tptr[i] = _t;
        }
''', '''        for(std::ptrdiff_t i=0; i<static_cast<std::ptrdiff_t>(size); ++i) {
            const double elapsed = _t - std::exchange(tptr[i], _t);
            xptr[i] += elapsed*vxptr[i];
            yptr[i] += elapsed*vyptr[i];
            zptr[i] += elapsed*vzptr[i];
        }
'''), ('src/rayVector.cpp', '#include "rayVector.h"', '#include "rayVector.h"\n#include <utility>\n#include <cstddef>')])
refac('cx-complex', 'P15 P24', [('src/rayVector.cpp', '''            outptr[2*i] = std::cos(phase);
            outptr[2*i+1] = std::sin(phase);
''', '''            double* const o = outptr + 2*i;
            o[0] = std::cos(phase);
            o[1] = std::sin(phase);
''')])
refac('cx-template', 'P18 P24', [('src/dualView.cpp', '''            for(size_t i=0; i<size; i++) result &= data[i] == rhs.data[i];
''', '''            for(size_t i=0; i<size; i++) {
                if (!(data[i] == rhs.data[i])) {
                    result = false;
                    break;
                }
            }
''')])
refac('cx-member', 'P15 P24', [('src/rayVector.cpp', '''    void RayVector::propagateInPlace(''', '''    namespace {
        inline void advance(double& q, double speed, double dt) { q = q + speed*dt; }
    }

    void RayVector::propagateInPlace('''), ('src/rayVector.cpp', '''            xptr[i] += vxptr[i] * (_t - tptr[i]);
            yptr[i] += vyptr[i] * (_t - tptr[i]);
            zptr[i] += vzptr[i] * (_t - tptr[i]);
            tptr[i] = _t;
''', '''            const double dt = _t - tptr[i];
            advance(xptr[i], vxptr[i], dt);
            advance(yptr[i], vyptr[i], dt);
            advance(zptr[i], vzptr[i], dt);
            tptr[i] += dt;
            tptr[i] = _t;
''')])
refac('cx-whiledown', 'P15 P24', [('src/rayVector.cpp', '''        #if defined(BATOID_GPU)
            #pragma omp target teams distribute parallel for
        #else
            #pragma omp parallel for num_threads(max_threads)
        #endif
        for(int i=0; i<size; i++) {
            xptr[i] += vxptr[i] * (_t - tptr[i]);
            yptr[i] += vyptr[i] * (_t - tptr[i]);
            zptr[i] += vzptr[i] * (_t - tptr[i]);
            tptr[i] = _t;
        }
''', '''        size_t i = size;
        while (i-- > 0) {
            const double dt = _t - tptr[i];
            xptr[i] += vxptr[i] * dt;
            yptr[i] += vyptr[i] * dt;
            zptr[i] += vzptr[i] * dt;
            tptr[i] = _t;
        }
''')])
refac('cx-lambdabody', 'P15 P24', [('src/rayVector.cpp', '''        #if defined(BATOID_GPU)
            #pragma omp target teams distribute parallel for
        #else
            #pragma omp parallel for num_threads(max_threads)
        #endif
        for(int i=0; i<size; i++) {
            xptr[i] += vxptr[i] * (_t - tptr[i]);
            yptr[i] += vyptr[i] * (_t - tptr[i]);
            zptr[i] += vzptr[i] * (_t - tptr[i]);
            tptr[i] = _t;
        }
''', '''        const auto advance = [=](size_t i) {
            const double dt = _t - tptr[i];
            xptr[i] += vxptr[i] * dt;
            yptr[i] += vyptr[i] * dt;
            zptr[i] += vzptr[i] * dt;
            tptr[i] = _t;
        };
        #if defined(BATOID_GPU)
            #pragma omp target teams distribute parallel for
        #else
            #pragma omp parallel for num_threads(max_threads)
        #endif
        for(int i=0; i<size; i++) {
            advance(i);
        }
''')])
refac('cx-notequal', 'P15 P24', [('src/rayVector.cpp', '''        #if defined(BATOID_GPU)
            #pragma omp target teams distribute parallel for
        #else
            #pragma omp parallel for num_threads(max_threads)
        #endif
        for(int i=0; i<size; i++) {
            xptr[i] += vxptr[i] * (_t - tptr[i]);
            yptr[i] += vyptr[i] * (_t - tptr[i]);
            zptr[i] += vzptr[i] * (_t - tptr[i]);
            tptr[i] = _t;
        }
''', '''        #if defined(BATOID_GPU)
            #pragma omp target teams distribute parallel for
        #else
            #pragma omp parallel for num_threads(max_threads)
        #endif
        for(size_t i=0; i!=size; ++i) {
            const double dt = _t - tptr[i];
            xptr[i] += vxptr[i] * dt;
            yptr[i] += vyptr[i] * dt;
            zptr[i] += vzptr[i] * dt;
            tptr[i] = _t;
        }
''')])
