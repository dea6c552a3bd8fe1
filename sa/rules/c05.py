"""Operations defined only for two-dimensional images reject everything else."""
from lib import *

TUS = ['lib']
MIN = {'guard': 45, 'accessor': 4}

# public operations (and SIFT stages) whose documentation/definition is two-dimensional: name -> operands concerned (None = every image operand)
TWO_D = {n: None for n in '''add_border_2d butterworth_fisheye determinant3x3 difference_of_gaussian write_to_csv draw_circle draw_line
flip_horizontal flip_horizontal_vertical flip_vertical generate_constant_padding_image generate_mirror_padding_image generate_replicate_padding_image
imgaussfilt imstitch is_symmetry lanczos_resample paste2D transpose bilateral_filter bilinear_interpolate
concat_horizontal concat_vertical copyResizeBicubic dft2 idft2 draw_point generate_padded_image highlight_region resize_nearest_neighbor split split_overlap
subimage2 windowed_filter estimate_gaussian_parameters_2d find_stitch_homography gaussian_fisheye rotate rotate_degree rotate_detail
rotate_detail_shear_transformation rotate_detail_shear_transformation_degree
compute_each_pixel_orientation is_it_extremum keypoint_filtering keypoint_refinement find_local_extrema get_orientation_histogram get_potential_keypoint'''.split()}
TWO_D['conv2'] = 0


def accessor_rejects(P, R, I):
    """every variadic accessor throws unless exactly as many coordinates as dimensions are given"""
    for f in P.funcs:
        if f.cls != 'Image' or f.name not in ('at', 'at_without_boundary_check') or not f.body:
            continue
        pk = [p for p in f.params if p.get('pack')]
        if not pk:
            continue
        this = mk('imgp', 'this')
        for n in (1, 2, 3):
            fr = I.run(f, this=this, packn=n)
            w = '%s:%d %s with %d coordinates' % (f.file, f.line, f.sig(), n)
            if fr is None:
                R.unknown('accessor', w)
                continue
            g = eq0(sub(I.dim(this), const(n)))
            bad = [x for x in fr.exits if not entails(x['st'].facts, g)]
            if not bad:
                R.ok('accessor', w)
            elif any(opaque_guard(x['st'].facts, this) for x in bad):
                R.unknown('accessor', w)
            else:
                R.bad('accessor', fkey(f), f.file, f.line, f.sig(), 'returns a pixel although the image does not have exactly %d dimensions' % n)


def handles(body):
    return any(n['k'] == 'try' for n in walk(body))


def run(P, R):
    R.rule('guard', 'for every image operand of an operation defined only for two-dimensional images, the facts on every normal exit entail '
                    'dimensionality == 2, or the operand is accessed with exactly two coordinates through an accessor that throws otherwise')
    R.rule('accessor', 'the accessors taking separate coordinates throw unless the number of coordinates equals the dimensionality')
    I = Interp(P)
    accessor_rejects(P, R, I)
    acc_ok = not R.findings
    for f in P.funcs:
        if not f.body or f.name not in TWO_D or f.file not in ('image_operations.h', 'image_io.h', 'image.h', 'linear_algebra.h'):
            continue
        ops = image_params(f)
        which = TWO_D[f.name]
        if which is not None:
            ops = ops[which:which + 1]
        if not ops:
            continue
        fr = I.run(f)
        for n, t in ops:
            w = '%s:%d %s operand %s' % (f.file, f.line, f.sig(), n)
            if fr is None:
                R.unknown('guard', w + ' (budget)')
                continue
            g = eq0(sub(I.dim(t), const(2)))
            bad = [x for x in fr.exits if not entails(x['st'].facts, g)]
            accs = [e for e in I.events if e['k'] == 'px' and (e['img'] is t or I.dim(e['img']) is I.dim(t)) and len(e['coords']) == 2 and (acc_ok or entails(e['facts'], g))]
            # an exception that leaves an OpenMP region or a callback of a policy algorithm ends the program: it rejects nothing
            acc = [e for e in accs if entails(e['facts'], g) or not any(r.kind in ('omp', 'par') for r in e['regions'])]
            if bad and accs and not acc and not handles(f.body):
                e = accs[0]
                R.bad('guard', '%s|%s|terminates' % (fkey(f), n), f.file, e['l'] or f.line, f.sig(),
                      'operand %s of another dimensionality is detected only inside a parallel region, where the exception cannot be caught: the program is terminated instead' % n)
                continue
            if not bad or acc:
                R.ok('guard', w)
                continue
            op = next((x for x in bad if opaque_guard(x['st'].facts, t)), None)
            dele = next((e for e in I.events if e['k'] in ('call', 'mcall') and not str(e.get('q')).startswith('std::') and any(t in subterms(x) for x in e.get('args', ()) if isinstance(x, T))), None)
            dele = dele or next((dict(q='an image derived from it') for e in I.events if e['k'] == 'px' and len(e['coords']) == 2 and t in subterms(e['img'])), None)
            if op:
                R.unknown('guard', w + ' (guard not interpreted)')
            elif dele:
                R.unknown('guard', w + ' (handed to %s, not entered)' % dele.get('q'))
            else:
                R.bad('guard', '%s|%s' % (fkey(f), n), f.file, bad[0]['l'] or f.line, f.sig(),
                      'operand %s can have a dimensionality other than 2 and is processed without an exception' % n)
