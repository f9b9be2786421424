REFS = []
def R(id, checks, file, edits):
    REFS.append(dict(id=id, checks=checks.split(), file=file, edits=edits))

NAT = 'C01 C02 C03 C04 C05 C06 C07 C08 C20'

R('downwash_vec3', NAT, 'aero/c_downwash.cpp', [
 ('void vlm_downwash(', '''namespace {

struct Vec3 { double x, y, z; };

inline Vec3 operator-(const Vec3& a, const Vec3& b) { return Vec3{a.x - b.x, a.y - b.y, a.z - b.z}; }
inline double dot(const Vec3& a, const Vec3& b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
inline Vec3 cross(const Vec3& a, const Vec3& b)
{
    return Vec3{a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x};
}
inline Vec3 vec(const double* p) { Vec3 v; v.x = p[0]; v.y = p[1]; v.z = p[2]; return v; }

Vec3 leg_velocity(const Vec3& P, const double* leg, const double eps)
{
    const Vec3 r1 = P - vec(leg);
    const Vec3 r2 = P - vec(leg + NUM_COORD);
    const double m1 = std::sqrt(dot(r1, r1)), m2 = std::sqrt(dot(r2, r2));
    const Vec3 c = cross(r1, r2);
    const double f = (1/(4.0*PI))*(1/(dot(r1, r2) + m1*m2*(1 + eps)))*(1/m1 + 1/m2);
    return Vec3{f*c.x, f*c.y, f*c.z};
}

}

void vlm_downwash('''),
 ('''            // Induced velocity ("downwash")
            double dw_x = 0.0;
            double dw_y = 0.0;
            double dw_z = 0.0;
''', '''            Vec3 sum = {0.0, 0.0, 0.0};
            const Vec3 P = vec(&lattice->C[index_i]);
'''),
 ('''                // Indices of current vortex filament endpoints
                // * Loop 1 (k=0): V1 and V2 --> 'left trailing leg'
                // * Loop 2 (k=1): V2 and V3 --> 'bound leg'
                // * Loop 3 (k=2): V3 and V4 --> 'right trailing leg'
                int index_leg_p1 = j*NUM_V*NUM_COORD + k*NUM_COORD;
                int index_leg_p2 = j*NUM_V*NUM_COORD + (k + 1)*NUM_COORD;

                // ----- CALCULATE VECTORS R0, R1, R2 -----
                double r1_x = lattice->C[index_i    ] - lattice->V[index_leg_p1    ];
                double r1_y = lattice->C[index_i + 1] - lattice->V[index_leg_p1 + 1];
                double r1_z = lattice->C[index_i + 2] - lattice->V[index_leg_p1 + 2];
                double r1_mag = sqrt(r1_x*r1_x + r1_y*r1_y + r1_z*r1_z);

                double r2_x = lattice->C[index_i    ] - lattice->V[index_leg_p2    ];
                double r2_y = lattice->C[index_i + 1] - lattice->V[index_leg_p2 + 1];
                double r2_z = lattice->C[index_i + 2] - lattice->V[index_leg_p2 + 2];
                double r2_mag = sqrt(r2_x*r2_x + r2_y*r2_y + r2_z*r2_z);

                // Dotproduct r1*r2
                double r1r2_dot = r1_x*r2_x + r1_y*r2_y + r1_z*r2_z;

                // ----- CROSS-PRODUCT R1 x R2 -----
                double rcross_x = r1_y*r2_z - r1_z*r2_y;
                double rcross_y = r1_z*r2_x - r1_x*r2_z;
                double rcross_z = r1_x*r2_y - r1_y*r2_x;

                // ----- INDUCED VELOCITY FOR UNIT VORTEX STRENGTH -----
                double v_c = (1/(4.0*PI))*(1/(r1r2_dot + r1_mag*r2_mag*(1 + lattice->EPSILON)))*(1/r1_mag + 1/r2_mag);
                double v_x = v_c*rcross_x;
                double v_y = v_c*rcross_y;
                double v_z = v_c*rcross_z;

                // ----- DOWNWASH FACTOR -----
                // Collect contribution of current vortex segment
                dw_x += v_x;
                dw_y += v_y;
                dw_z += v_z;
''', '''                const Vec3 v = leg_velocity(P, lattice->V + (j*NUM_V + k)*NUM_COORD, lattice->EPSILON);
                sum.x += v.x;
                sum.y += v.y;
                sum.z += v.z;
'''),
 ('''            dw[index_ij] = dw_x*lattice->N[index_i    ]
                         + dw_y*lattice->N[index_i + 1]
                         + dw_z*lattice->N[index_i + 2];''', '''            dw[index_ij] = dot(sum, vec(&lattice->N[index_i]));'''),
])

R('downwash_loops', NAT, 'aero/c_downwash.cpp', [
 ('''    for (int i = 0 ; i < num_pan ; ++i)
    {
        // Index of panel''', '''    int i = 0;
    while (i < num_pan)
    {
        // Index of panel'''),
 ('''                         + dw_z*lattice->N[index_i + 2];
        }
''', '''                         + dw_z*lattice->N[index_i + 2];
        }
        i++;
'''),
 ('for (int k = 0 ; k < NUM_V - 1 ; ++k)', 'for (int k = NUM_V - 2 ; k >= 0 ; --k)'),
 ('(1/(4.0*PI))*(1/(r1r2_dot + r1_mag*r2_mag*(1 + lattice->EPSILON)))*(1/r1_mag + 1/r2_mag)',
  '(r1_mag + r2_mag)/(4.0*PI*r1_mag*r2_mag*(r1r2_dot + r1_mag*r2_mag*(1 + lattice->EPSILON)))'),
 ('sqrt(r1_x*r1_x + r1_y*r1_y + r1_z*r1_z)', 'std::pow(std::pow(r1_x, 2) + std::pow(r1_y, 2) + std::pow(r1_z, 2), 0.5)'),
])

R('results_split', NAT, 'aero/c_results.cpp', [
 ('// ===== INWASH =====\nvoid', '''#include <vector>
#include <cmath>
#include <array>

static std::array<double, 3> cross3(const std::array<double, 3>& a, const std::array<double, 3>& b)
{
    std::array<double, 3> c;
    for (int k = 0; k < 3; ++k)
        c[k] = a[(k + 1)%3]*b[(k + 2)%3] - a[(k + 2)%3]*b[(k + 1)%3];
    return c;
}

// ===== INWASH =====
void'''),
 ('''        results->iw_x[i] = 0.0;
        results->iw_y[i] = 0.0;
        results->iw_z[i] = 0.0;
        results->iw_mag[i] = 0.0;
''', '''        std::vector<double> iw(3, 0.0);
'''),
 ('''            results->iw_x[i] += dw_x*results->gamma[j];
            results->iw_y[i] += dw_y*results->gamma[j];
            results->iw_z[i] += dw_z*results->gamma[j];

            // Collect inwash contribution of emitting panels
            results->iw_mag[i] = sqrt( results->iw_x[i]*results->iw_x[i]
                                     + results->iw_y[i]*results->iw_y[i]
                                     + results->iw_z[i]*results->iw_z[i] );
        }
''', '''            iw[0] += dw_x*results->gamma[j];
            iw[1] += dw_y*results->gamma[j];
            iw[2] += dw_z*results->gamma[j];
        }
        results->iw_x[i] = iw[0];
        results->iw_y[i] = iw[1];
        results->iw_z[i] = iw[2];
        results->iw_mag[i] = std::sqrt(iw[0]*iw[0] + iw[1]*iw[1] + iw[2]*iw[2]);
'''),
 ('''        double f_x = state->rho*(vel_y*L_z - vel_z*L_y)*results->gamma[i];
        double f_y = state->rho*(vel_z*L_x - vel_x*L_z)*results->gamma[i];
        double f_z = state->rho*(vel_x*L_y - vel_y*L_x)*results->gamma[i];
''', '''        const double strength = state->rho*results->gamma[i];
        const auto vxl = cross3({vel_x, vel_y, vel_z}, {L_x, L_y, L_z});
        double f_x = strength*vxl[0];
        double f_y = strength*vxl[1];
        double f_z = strength*vxl[2];
'''),
 ('''    results->ftot_D = B2W[0][0]*results->ftot_x + B2W[0][1]*results->ftot_y + B2W[0][2]*results->ftot_z;
    results->ftot_C = B2W[1][0]*results->ftot_x + B2W[1][1]*results->ftot_y + B2W[1][2]*results->ftot_z;
    results->ftot_L = B2W[2][0]*results->ftot_x + B2W[2][1]*results->ftot_y + B2W[2][2]*results->ftot_z;
''', '''    const double body[3] = {results->ftot_x, results->ftot_y, results->ftot_z};
    double* const wind[3] = {&results->ftot_D, &results->ftot_C, &results->ftot_L};
    for (int r = 0; r < 3; ++r)
    {
        *wind[r] = 0.0;
        for (int c = 0; c < 3; ++c)
        {
            *wind[r] += B2W[r][c]*body[c];
        }
    }
'''),
 ('''    results->CL = results->ftot_L/(q*refs->area);
    results->CD = results->ftot_D/(q*refs->area);
    results->CC = results->ftot_C/(q*refs->area);
''', '''    auto coeff = [&](double load) { return load/(q*refs->area); };
    results->CL = coeff(results->ftot_L);
    results->CD = coeff(results->ftot_D);
    results->CC = coeff(results->ftot_C);
'''),
])

R('boundary_helper', NAT, 'aero/c_boundary.cpp', [
 ('void vlm_boundary(', '''static void rotation_velocity(const statestruct* state, const double arm[3], double vel[3])
{
    vel[0] = state->Q*arm[2] - state->R*arm[1];
    vel[1] = state->R*arm[0] - state->P*arm[2];
    vel[2] = state->P*arm[1] - state->Q*arm[0];
}

void vlm_boundary('''),
 ('''        double arm_x = lattice->C[index_i    ] - refs->CG[0];
        double arm_y = lattice->C[index_i + 1] - refs->CG[1];
        double arm_z = lattice->C[index_i + 2] - refs->CG[2];
''', '''        double arm[3];
        for (int k = 0; k < 3; ++k)
            arm[k] = lattice->C[index_i + k] - refs->CG[k];
'''),
 ('''        double vel_rot_x = state->Q*arm_z - state->R*arm_y;
        double vel_rot_y = state->R*arm_x - state->P*arm_z;
        double vel_rot_z = state->P*arm_y - state->Q*arm_x;
''', '''        double vel_rot[3] = {};
        rotation_velocity(state, arm, vel_rot);
'''),
 ('vel_wind_x + vel_rot_x', 'vel_wind_x + vel_rot[0]'),
 ('vel_wind_y + vel_rot_y', 'vel_wind_y + vel_rot[1]'),
 ('vel_wind_z + vel_rot_z', 'vel_wind_z + vel_rot[2]'),
 ('''        rhs[i] = vel_x*lattice->N[index_i    ]
               + vel_y*lattice->N[index_i + 1]
               + vel_z*lattice->N[index_i + 2];''', '''        const double vel[] = {vel_x, vel_y, vel_z};
        double* target = rhs + i;
        *target = 0.0;
        for (int k = 0; k < NUM_COORD; ++k)
            *target += vel[k]*lattice->N[index_i + k];'''),
])

R('lattice_helpers', NAT + ' C14 C15', 'aero/c_lattice.cpp', [
 ('#include "c_vlm.h"', '''#include "c_vlm.h"
#include <algorithm>
#include <cstring>

static double norm3(double x, double y, double z)
{
    return sqrt(x*x + y*y + z*z);
}

// Point of the bilinear patch with corners A, B, C, D
static void patch_point(const double* A, const double* B, const double* C, const double* D,
                        double s, double c, double* out)
{
    for (int k = 0; k < 3; ++k)
        out[k] = (1 - c)*((1 - s)*A[k] + s*B[k]) + c*((1 - s)*D[k] + s*C[k]);
}
'''),
 ('''                    if (area > info->area_max) { info->area_max = area; }
                    if (area < info->area_min) { info->area_min = area; }
                    if (aspect > info->aspect_max) { info->aspect_max = aspect; }
                    if (aspect < info->aspect_min) { info->aspect_min = aspect; }
''', '''                    info->area_max = std::max(info->area_max, area);
                    info->area_min = std::min(info->area_min, area);
                    info->aspect_max = aspect > info->aspect_max ? aspect : info->aspect_max;
                    info->aspect_min = fmin(aspect, info->aspect_min);
'''),
 ('double norm = sqrt(n_x*n_x + n_y*n_y + n_z*n_z);', 'double norm = norm3(n_x, n_y, n_z);'),
 ('double span = sqrt(span_x*span_x + span_y*span_y + span_z*span_z);', 'double span = norm3(span_x, span_y, span_z);'),
 ('double chord = sqrt(chord_x*chord_x + chord_y*chord_y + chord_z*chord_z);', 'double chord = norm3(chord_x, chord_y, chord_z);'),
 ('''                    lattice->P[index_P    ] = alpha1 + alpha2*s_min + alpha3*c_min + alpha4*s_min*c_min;
                    lattice->P[index_P + 1] = beta1  + beta2*s_min  + beta3*c_min  + beta4*s_min*c_min;
                    lattice->P[index_P + 2] = gamma1 + gamma2*s_min + gamma3*c_min + gamma4*s_min*c_min;
''', '''                    double corner[3];
                    if (symmetry == 0)
                    {
                        patch_point(pts + index_A, pts + index_B, pts + index_C, pts + index_D, s_min, c_min, corner);
                    }
                    else
                    {
                        corner[0] = alpha1 + alpha2*s_min + alpha3*c_min + alpha4*s_min*c_min;
                        corner[1] = beta1  + beta2*s_min  + beta3*c_min  + beta4*s_min*c_min;
                        corner[2] = gamma1 + gamma2*s_min + gamma3*c_min + gamma4*s_min*c_min;
                    }
                    memcpy(&lattice->P[index_P], corner, sizeof(corner));
'''),
 ('''        double ds = 1.0/pan_s;
        double dc = 1.0/pan_c;
''', '''        const double ds = 1.0/static_cast<double>(pan_s);
        const double dc = 1.0/(double)pan_c;
'''),
 ('double s_max = ds*(j + 1);', 'double s_max = s_min + ds;'),
 ('double c_max = dc*(i + 1);', 'double c_max = (i + 1)/(double)pan_c;'),
])

R('glue_helper', NAT, 'aero/c_vlm.cpp', [
 ('double deg2rad(double deg)\n{\n    return deg*(PI/180.0);', 'double deg2rad(double deg)\n{\n    const double factor = PI/180.0;\n    return factor*deg;'),
 ('''    freestream_dir[0] = cos(alpha)*cos(beta);
    freestream_dir[1] = -sin(beta);
    freestream_dir[2] = sin(alpha)*cos(beta);
    return''', '''    const double cos_b = std::cos(beta);
    *freestream_dir = std::cos(alpha)*cos_b;
    *(freestream_dir + 1) = -std::sin(beta);
    *(freestream_dir + 2) = std::sin(alpha)*cos_b;
    return'''),
])

VLM = 'C08 C09 C12 C13 C14 C15 C16 C20 C21'
R('vlm_gen', VLM, 'aero/vlm.py', [
 ('''        num_chordwise_panels = subarea.parent_control.panels['num_c'] if \\
                               subarea.parent_control is not None else \\
                               segment.panels['num_c']
''', '''        owner = subarea.parent_control or segment
        num_chordwise_panels = owner.panels['num_c']
'''),
 ('''        lattice.update_bookkeeping(
                BookKeepingEntry(subarea, range(pan_idx1, num_p), num_chordwise_panels, mirror=False))

        if wing.symmetry:
            num_subareas += 1

            pan_idx1 = num_p
            num_r += num_chordwise_panels
            num_p += num_chordwise_panels

            lattice.update_bookkeeping(
                    BookKeepingEntry(subarea, range(pan_idx1, num_p), num_chordwise_panels, mirror=True))
''', '''        lattice.update_bookkeeping(
                BookKeepingEntry(subarea, range(pan_idx1, num_p), num_chordwise_panels, mirror=False))

        if not wing.symmetry:
            continue

        num_subareas += 1
        num_p, num_r, pan_idx1 = num_p + num_chordwise_panels, num_r + num_chordwise_panels, num_p
        mirrored = BookKeepingEntry(subarea, range(pan_idx1, num_p), num_chordwise_panels, mirror=True)
        lattice.update_bookkeeping(mirrored)
'''),
 ('''    i = 0
    for entry in lattice.panel_bookkeeping:
        subarea = entry.subarea
        pan_idx = entry.pan_idx
        mirror = entry.mirror

        vertices = subarea.abs_vertices(mirror)

        array_subareas[i, 0, :] = vertices['a']
        array_subareas[i, 1, :] = vertices['b']
        array_subareas[i, 2, :] = vertices['c']
        array_subareas[i, 3, :] = vertices['d']

        # TODO: array_panels can be simplified (now only vector)
        # array_panels[i, 0] = 1
        array_panels[i, 1] = entry.num_chordwise_panels
        i += 1
''', '''    for i, entry in enumerate(lattice.panel_bookkeeping):
        vertices = entry.subarea.abs_vertices(entry.mirror)
        array_subareas[i] = np.array([vertices[key] for key in 'abcd'])
        array_panels[i, 1] = entry.num_chordwise_panels
'''),
 ('''                    for i in pan_idx:
                        lattice.n[i, :] = R @ lattice.n[i, :]
''', '''                    rows = slice(pan_idx.start, pan_idx.stop)
                    lattice.n[rows] = lattice.n[rows] @ R.T
'''),
 ('''            num_panels = len([i for i in pan_idx])
            collocation_xsi = subarea.get_xsi_for_collocation_points(num_panels)

            for pan_of_subarea, i in enumerate(pan_idx):
                rot_axis = subarea.abs_camber_line_rot_axis(mirror)
                xsi = collocation_xsi[pan_of_subarea]
                angle''', '''            rot_axis = subarea.abs_camber_line_rot_axis(mirror)
            for i, xsi in zip(pan_idx, subarea.get_xsi_for_collocation_points(len(pan_idx))):
                angle'''),
 ('R = axis_rot_matrix(rot_axis, angle)\n                    lattice.n[i, :] = R @ lattice.n[i, :]', 'lattice.n[i] = np.dot(axis_rot_matrix(rot_axis, angle), lattice.n[i])'),
 ('''        if segment.panels['num_s'] is None:
            wing_span = segment.parent_wing.span
            segment_span = segment.geometry['span']
            segment.panels['num_s'] = ceil((segment_span/wing_span)*autopanels_s)
''', '''        if segment.panels['num_s'] is None:
            share = segment.geometry['span']/segment.parent_wing.span
            segment.panels['num_s'] = int(np.ceil(share*autopanels_s))
'''),
])

R('vlm_pre', VLM, 'aero/vlm.py', [
 ('''                    a = get_abs_segment_point_coords(segment_vertices, eta_i, xsi_i)
                    b = get_abs_segment_point_coords(segment_vertices, eta_o, xsi_o)
                    ab = b - a

                    # l: total length of control
                    l = control_len[-1]
                    control_len.append(l + np.sqrt(np.dot(ab, ab)))

                l = control_len[-1]
''', '''                    a = get_abs_segment_point_coords(segment_vertices, eta_i, xsi_i)
                    b = get_abs_segment_point_coords(segment_vertices, eta_o, xsi_o)
                    control_len += [control_len[-1] + np.linalg.norm(a - b)]

                l = control_len[-1]
'''),
 ('''                for i, row in enumerate(list_of_segments):
                    segment_uid, eta_i, eta_o, xsi_i, xsi_o, xsi_hi, xsi_ho = row

                    # Update the xsi values
                    l_i = control_len[i]
                    l_o = control_len[i+1]

                    xsi_i = lin_interpol((xsi_inner, xsi_outer), (0, l), l_i)
                    xsi_o = lin_interpol((xsi_inner, xsi_outer), (0, l), l_o)
                    xsi_hi = lin_interpol((xsi_h1, xsi_h2), (0, l), l_i)
                    xsi_ho = lin_interpol((xsi_h1, xsi_h2), (0, l), l_o)

                    list_of_segments[i] = [segment_uid, eta_i, eta_o, xsi_i, xsi_o, xsi_hi, xsi_ho]
''', '''                edge = [xsi_inner + (xsi_outer - xsi_inner)*x/l for x in control_len]
                hinge = [xsi_h1 + (xsi_h2 - xsi_h1)*x/l for x in control_len]
                for i in range(len(list_of_segments)):
                    list_of_segments[i][3:] = [edge[i], edge[i + 1], hinge[i], hinge[i + 1]]
'''),
 ('''        for eta in np.linspace(0, 1, segment.panels['num_s']+1):
            if (eta == 0) or (eta == 1):
                continue
            segment''', '''        for eta in np.linspace(0, 1, segment.panels['num_s']+1)[1:-1]:
            segment'''),
])
R('vlm_pre2', VLM, 'aero/vlm.py', [
 ('''        for eta in np.linspace(0, 1, segment.panels['num_s']+1):
            if (eta == 0) or (eta == 1):
                continue
            segment''', '''        num_s = segment.panels['num_s']
        for k in range(1, num_s):
            eta = k/num_s
            segment'''),
 ('''    for key in ['vx', 'vy', 'vz', 'vmag',  'fx', 'fy', 'fz', 'fmag', 'cp']:
        vlmdata.panelwise[key] = np.zeros((num_p), dtype=float, order='C')
''', '''    names = ('vx', 'vy', 'vz', 'vmag',  'fx', 'fy', 'fz', 'fmag', 'cp')
    vlmdata.panelwise.update({key: np.empty(num_p, dtype=float) for key in names})
'''),
 ("vlmdata.array_rhs = np.array(vlmdata.array_rhs)", "vlmdata.array_rhs = vlmdata.array_rhs.copy()"),
 ("vlmdata.matrix_downwash = np.zeros((num_p, num_p), dtype=float, order='C')", "vlmdata.matrix_downwash = np.empty(shape=(num_p, num_p))"),
])
