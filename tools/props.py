"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs', 'configurations'), observe=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=['src/tools21cm/' + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'observe_at': observe} if observe else {})), _na=na, _note=note))


prop('C01', '21-cm brightness temperature follows density, neutral fraction and redshift',
     'In the saturated limit the computed signal in every cell is the cosmic mean signal at that redshift times the neutral fraction times the density contrast, so ionised cells give zero and the result never depends on the storage type of the inputs or changes them. With a finite spin temperature the signal is that value times (1 - T_CMB/T_s), where in partially ionised cells T_s is the temperature of the neutral gas floored at its adiabatic minimum. A light-cone computation along any line-of-sight axis gives, slice by slice, exactly what a coeval computation at the redshift of that slice gives.',
     'all density/ionisation/temperature fields, every line-of-sight axis and redshift',
     'Tests run a few hard-coded arrays at one redshift and the default axis; the law is universally quantified over fields and axes.',
     ['temperature.py', 'const.py', 'cosmo.py'],
     [('saturated signal', 'temperature._dt / calc_dt'), ('spin-temperature signal', 'temperature._dt_full'), ('light-cone variants', 'temperature.calc_dt_lightcone, calc_dt_full_lightcone')])

prop('C02', 'A light cone interpolates the periodic coeval snapshots at each slice redshift',
     'Each slice of a constructed light cone is the slice of the periodically repeated coeval box at that comoving position, taken from the two snapshots whose redshifts bracket the slice, linearly weighted by redshift (or switched half-way for step interpolation). A slice redshift that coincides with a snapshot reproduces that snapshot exactly, the slice redshifts are one comoving cell apart, and every snapshot is used at the redshift it was given, whatever the order of the inputs.',
     'all snapshot values, all sets of snapshot redshifts and redshift ranges, every observing axis',
     'The existing test builds one constant-valued light cone; interpolation weights, ordering, wrapping and edge redshifts are not distinguished by constant data.',
     ['lightcone.py', 'cosmo.py'],
     [('slice construction', 'lightcone.make_lightcone, get_lightcone_slice, get_interp_slice'), ('redshift grid', 'lightcone._get_output_z, _get_file_redshifts')])

prop('C04', 'Power-spectrum estimators obey Fourier identities',
     'For every field the n-dimensional power spectrum is the squared modulus of its Fourier transform normalised so that its mean over modes times N/V equals the field\'s mean square, and is real, non-negative, unchanged by periodic shifts and scales with the square of the field. The cross power spectrum of a field with itself equals its power spectrum, is symmetric in its arguments and linear in each. Inputs are never modified.',
     'all real fields on the bounded grids (1-D, 2-D, 3-D, non-cubic), all box sizes',
     'Tests check one or two random or constant cubes; the identities are universally quantified over fields.',
     ['power_spectrum.py', 'power_spect_fast.py'],
     [('ND spectra', 'power_spectrum.power_spectrum_nd, cross_power_spectrum_nd, apply_window')])

prop('C05', 'Binned power spectra average every mode into exactly one bin',
     'The spherically, cylindrically and angularly averaged power spectra are, in each bin, the plain mean of the n-dimensional power over the Fourier modes whose wavenumber falls in that bin, and the reported mode counts are the numbers of those modes. With bins that cover all wavenumbers every mode is counted exactly once, and wavenumbers are the physical ones of the box, including non-cubic grids and odd grid sizes. The dimensionless power spectrum is k^3 P / 2 pi^2 interpolated between the non-empty bins.',
     'all fields on the bounded grids, all bin choices (number, edges, linear/log), every line-of-sight axis',
     'Tests compare a single random cube against itself for one binning.',
     ['power_spectrum.py', 'power_legendre.py'],
     [('radial average', 'power_spectrum.radial_average, power_spectrum_1d'), ('2-D and mu binning', 'power_spectrum.power_spectrum_2d, power_spectrum_mu, mu_binning, dimensionless_ps'),
      ('wavenumber grid', 'power_spectrum._get_k, _get_kbins, _get_mu')])

prop('C06', 'Redshift-space distortions move signal without creating or destroying it',
     'Adding redshift-space distortions conserves the total signal along every line of sight for every velocity field, line-of-sight axis and mesh refinement, and lines of sight never mix. With zero velocity the field is returned unchanged; with a uniform velocity that displaces material by a whole number of cells it is shifted periodically by that number, up to one sub-particle that may fall on either side of a cell edge.',
     'all signal and velocity fields on the bounded grids, every axis, 1..n sub-particles, velocities beyond a box length',
     'Tests use one box with trivial velocities.',
     ['pv_mpm.py', 'lightcone.py', 'helper_functions.py'],
     [('particle re-gridding', 'pv_mpm.get_distorted_dt'), ('sub-cell interpolation', 'helper_functions.get_interpolated_array')])

prop('C07', 'Cosmological conversions are mutually inverse and follow the chosen cosmology',
     'Redshift, frequency, comoving distance and angular size conversions invert one another over the supported range, agree between scalar and array input, never depend on the storage type of the input, and are monotonic. After the user changes a cosmological parameter every derived constant and every later conversion uses the new value.',
     'all redshifts/frequencies/distances in range, all orders of parameter-setting calls',
     'Tests evaluate single values in the default cosmology; histories of setter calls and integer or array inputs are not covered.',
     ['cosmo.py', 'const.py', 'conv.py'],
     [('conversions', 'cosmo.z_to_nu, nu_to_z, z_to_cdist, cdist_to_z, nu_to_cdist, deg_to_cdist, angular_size...'), ('parameter setters', 'const.set_*')], over=('inputs', 'histories', 'configurations'))

prop('C09', 'Optical depth adds Thomson scattering over redshift',
     'The integrated Thomson optical depth starts at the analytic value of the fully ionised low-redshift universe, grows monotonically with redshift, and the part added by the simulation is linear in the mean ionised fraction of each snapshot, weighted by the electron density per redshift interval; snapshots are used in redshift order and inputs are not modified.',
     'all ionisation histories and snapshot redshifts within the bounds, any order of the snapshots',
     'Tests evaluate at most one history; linearity, ordering and monotonicity range over all histories.',
     ['tau.py'],
     [('optical depth', 'tau.tau, tau.tau_map')])

prop('C10', 'Convolution and smoothing kernels are centred, normalised and act by definition',
     'Convolution with each boundary mode equals the direct sum of shifted copies weighted by the kernel, centred on the middle kernel cell for even and odd sizes. Gaussian, tophat and Lanczos kernels are normalised and symmetric, so smoothing conserves the total signal, leaves a constant field unchanged and (for non-negative kernels) never leaves the range of the input. Interpolation returns the data at grid points, and beam width is inversely proportional to baseline length.',
     'all fields and kernels on the bounded grids, even and odd sizes, all boundary modes',
     'Tests smooth one random field and compare its variance; centring and boundary treatment are not distinguished.',
     ['smoothing.py', 'fft_functions.py'],
     [('FFT convolution', 'fft_functions.fftconvolve'), ('kernels', 'smoothing.gauss_kernel, tophat_kernel, lanczos_kernel'), ('smoothing', 'smoothing.smooth_gauss, smooth_tophat, smooth_line, interpolate2d/3d, beam_convolve')])

prop('C18', 'Statistics and mean subtraction follow their definitions',
     'Mean, variance, skewness and kurtosis of cubes and of mass- or ionisation-weighted quantities equal their textbook definitions. Subtracting the mean signal leaves every slice along the chosen line of sight with zero mean, only removes that slice\'s mean, and neither modifies the input nor depends on its storage type. Combining the statistics of two samples gives those of the union, and index lookup returns every element within the limits.',
     'all fields and axes on the bounded grids, including negative axes and integer data',
     'Tests use one random cube with a fixed axis; the identities are universally quantified.',
     ['statistics.py', 'helper_functions.py'],
     [('moments', 'statistics.mean, variance, skewness, kurtosis, mass_weighted_mean_xi'), ('mean subtraction', 'statistics.subtract_mean_signal, signal_overdensity, apply_func_along_los')])

prop('C03', 'Observational and comoving light-cone coordinates are regridded consistently',
     'Converting a light cone to frequency and angle gives, at every output frequency, the mean of the slices in that frequency bin resampled to the requested angular resolution at that slice\'s own redshift and repeated periodically over the field of view; the frequencies start at the lowest redshift and step down by the requested width. The conversion back uses the coarser of the two resolutions and returns one redshift per slice, one cell apart in comoving distance. Resampling treats both sky axes alike, never leaves the range of the data, and padding repeats the slice periodically.',
     'all light-cone values; geometry parameters as listed in the evidence; interpolation orders 0 and 1',
     'Tests check only output shapes for one light cone.',
     ['angular_coordinates.py', 'smoothing.py', 'helper_functions.py'],
     [('to observational', 'angular_coordinates.physical_lightcone_to_observational, physical_slice_to_angular, bin_lightcone_in_frequency'),
      ('to physical', 'angular_coordinates.observational_lightcone_to_physical, angular_slice_to_physical, bin_lightcone_in_mpc'), ('padding', 'angular_coordinates.padding_lightcone, _get_padded_slice')])

prop('C11', 'Telescope smoothing acts slice by slice at that slice\'s own resolution',
     'Smoothing a light cone replaces every slice by the mean of exactly the slices within the frequency window around it, convolved across the sky with a Gaussian beam of the width that the maximum baseline has at that slice\'s redshift; a light cone in decreasing redshift order gives the reversed result. Coeval smoothing acts along the chosen frequency axis with a tophat and across the other two with the beam. Imaging through a uv map multiplies each Fourier mode by the map, modes below the threshold or beyond the longest baseline vanish and all others are untouched; inputs are not modified.',
     'all light-cone and cube values, all window widths, every frequency axis, both redshift orders',
     'Tests smooth a random cube and compare the variance before and after.',
     ['smoothing.py'],
     [('light cones', 'smoothing.smooth_lightcone, smooth_lightcone_tophat, smooth_lightcone_gauss'), ('coeval cubes', 'smoothing.smooth_coeval, smooth_coeval_tophat, smooth_coeval_gauss'),
      ('uv space', 'smoothing.smooth_lightcone_uv_threshold, convolve_uvmap, convolve_uvmap_coeval, remove_baselines_from_uvmap')])

prop('C12', 'Euler characteristic and Betti numbers are those of the periodic cubical complex',
     'Thresholding a field and taking vertices, edges, faces and cells of the periodic cubical complex of the cells above the threshold, the Euler characteristic is V - E + F - C for every field, the same for all back ends and numbers of workers. Components and cavities are the connected components of the structure and of its complement under the chosen connectivity, their alternating sum with the tunnels is the Euler characteristic, and values supplied by the caller are used instead of being recomputed.',
     'every binary field on the bounded grids, any threshold, cubic and non-cubic shapes',
     'Tests evaluate one or two fixed configurations per function.',
     ['topology.py', 'ViteBetti.py', 'ViteBetti_cython.pyx'],
     [('Betti numbers', 'topology.betti0, betti1, betti2, EulerCharacteristic'), ('cubical complex', 'ViteBetti.CubeMap, CubeMap_joblib, ViteBetti_cython.CubeMap, EulerCharacteristic_seq')])

prop('C13', 'Friends-of-friends partitions the region of interest into connected regions',
     'Friends-of-friends labels exactly the cells at or above the threshold (strictly above in the package\'s own search), gives two cells the same label if and only if they are connected through neighbouring cells of the region under the chosen connectivity, numbers the regions consecutively and reports the cell count of every region in label order, also when one region fills the volume. The percolation cluster is the largest region that meets its own periodic image across the box, its size being 0 if none does. Size histograms count every region once and scale with the resolution.',
     'every field and threshold on the bounded grids in one to three dimensions, every connectivity',
     'Tests label one ball; adjacency, ties with the threshold, full volumes and percolation vary with the field.',
     ['bubble_stats.py', 'Friends_of_Friends.py', 'percolation.py'],
     [('labelling', 'bubble_stats.fof, Friends_of_Friends.FoF_search'), ('percolation', 'percolation.find_percolation_cluster'), ('size histograms', 'bubble_stats.dist_from_volumes, plot_fof_sizes')])

prop('C14', 'Ray, sphere and granulometry size distributions follow their definitions',
     'In the mean-free-path method rays start on cells of the region of interest only (a given point outside it is refused), a ray is counted once, at the first step where the interpolated region indicator is not above one half or the box ends, and the result is r times the fraction of rays of each length in physical units. The spherical-average method assigns each cell the largest radius whose centred ball average reaches the threshold and returns the share of assigned cells per radius. Granulometry gives the part of the region that is removed between openings with balls of consecutive radii. An upper limit acts like a lower limit on the negated field, sizes scale with the box size, data without region gives zero, and inputs are not modified.',
     'all fields on the bounded grids, all starting cells, listed ray angles and radii',
     'Tests only check the mean size found for one ball in a box.',
     ['bubble_stats.py', 'mfp_np.py', 'spa_np.py', 'morph.py'],
     [('rays', 'mfp_np.mfp2d, mfp3d, _ray3d; bubble_stats.mfp'), ('spherical average', 'spa_np.spa_np, bubble_stats.spa'), ('openings', 'morph.binary_erosion, binary_dilation, binary_opening; bubble_stats.granulometry_bsd')])

prop('C16', 'Simulation files are read as laid out and read back as written',
     'Reading a simulation output file returns exactly the stored numbers in Fortran order with the mesh size of its header and the redshift of its name, for the old and new record formats alike. Densities in cgs are the raw density times the mean baryon density per mean mass of a mesh cell; velocities are momentum divided by (density/8) in km/s at the redshift of the file; fractions (or neutral fractions), temperatures and rates are unchanged; source lists become 0-based cells and solar masses. Writing and reading back density, clumping, velocity, ionised fraction, source, cbin and raw binary files and pickled or npz dictionaries gives the same values, no record is lost or cut, and directory listings give the sorted redshifts of the files.',
     'all stored values and mesh shapes within the bounds, old and new formats, redshifts in the file name',
     'No test reads a simulation file; format, order and unit bugs show only with real data.',
     ['density_file.py', 'vel_file.py', 'xfrac_file.py', 'temper_file.py', 'irate_file.py', 'source_file.py', 'helper_functions.py', 'read_files.py'],
     [('density and velocity', 'density_file.DensityFile, vel_file.VelocityFile'), ('fractions, temperature, rates', 'xfrac_file.XfracFile, temper_file.TemperFile, irate_file.IonRateFile'),
      ('sources', 'source_file.SourceFile'), ('binary cubes and dictionaries', 'helper_functions.read_cbin, save_cbin, get_mesh_size, read_dictionary_data, write_dictionary_data; read_files.read_21cmfast_files, read_c2ray_files')])

prop('C19', 'Halo lists keep exactly the requested haloes with their own columns',
     'Reading a halo catalogue keeps, in file order, exactly the haloes whose mass lies strictly between the requested limits, starts at the requested line, stops after the requested number and reports whether the whole file was read. Every halo carries the position, centre of mass, velocity, angular momentum, dispersion, particle number and mass of its own line and of the chosen mass definition; with cosmological units they are converted with the cell size, velocity and mass units of the simulation and positions are wrapped periodically into the box; catalogues split over nodes are concatenated in node order.',
     'all halo properties, mass limits, start lines and numbers within the bounds; text, binary and Rockstar catalogues',
     'No test reads a halo catalogue.',
     ['halo_list.py', 'conv.py'],
     [('grid unit lists', 'halo_list.HaloList.read_from_file'), ('CubeP3M catalogues', 'halo_list.HaloCubeP3MFull, HaloCubeP3M'), ('Rockstar catalogues', 'halo_list.HaloRockstar'), ('units', 'conv.gridpos_to_mpc, gridvel_to_kms, gridmass_to_msol')])

prop('C20', 'Gridding haloes and sources puts every object in its own cell and loses none',
     'Gridding a list of haloes or sources onto a mesh that covers the box puts the mass (or the given value) of every object into the cell that contains its position, adds up objects that share a cell and loses none, independently of the units of masses and positions. Line intensity maps grid the luminosity (H I mass, [C II]) of each halo the same way. A density file of pkdgrav is returned with the x index first as the contrast with the mean of the file. Inputs are not modified.',
     'all object positions, masses and values, meshes within the bounds, every unit of mass and position accepted',
     'No test grids haloes or sources; objects that share a cell and boxes that are not filled show only for particular lists.',
     ['source_file.py', 'nbody_file.py', 'line_intensity.py'],
     [('sources', 'source_file.SourceFile.grid_sources'), ('haloes', 'nbody_file.Halo2Grid, halo_list_to_grid'), ('line intensity', 'line_intensity.M_HI_on_grid, L_CII_on_grid'), ('density file', 'nbody_file.read_pkdgrav_density_grid')])

prop('C08', 'Magnitudes, fluxes, particle numbers and grid units convert consistently',
     'Absolute and apparent magnitudes differ by the distance modulus less 2.5 log10(1+z) and the two conversions invert one another; five magnitudes are a factor of one hundred in flux or luminosity, with the AB zero point; a field of view becomes the comoving area at the distance of its redshift whatever its unit of angle. N^3 particles hold the mean matter of the box, so particle mass and particle number are inverse, and a minimum halo mass of n particles gives the same number as the particle mass. Grid masses and positions convert to solar masses and Mpc with the constants of the box that was set last, in both directions.',
     'all magnitudes, areas, box sizes, masses and particle numbers in range, with and without units, listed redshifts and cosmologies, all listed simulation boxes in sequence',
     'No test calls these conversions; inverses and units are laws over all values.',
     ['astro_tools.py', 'nbody_tools.py', 'usefuls.py', 'conv.py'],
     [('magnitudes and fluxes', 'astro_tools.Muv_to_muv, muv_to_Muv, mag_to_flux, Muv_to_L1500, FoV_cMpc2'), ('particles', 'nbody_tools.particle_number_to_particle_mass, ParticleMass_to_ParticleNumber, halo_mass_to_particle_number'), ('grid units', 'usefuls.Mgrid_2_Msolar, Msolar_2_Mgrid; conv.gridmass_to_msol, gridpos_to_mpc, set_sim_constants')])

prop('C35', 'Coeval cubes at any redshift come from the snapshots on both sides of it',
     'The ionised fraction, density, overdensity and velocity at a requested redshift are those of the snapshot at exactly that redshift if there is one, and otherwise the linear interpolation in redshift of the two snapshots closest below and above it, whatever the order in which the directory lists the files; momenta are divided by the density of their own snapshot; the C2Ray density is the comoving density of the preceding snapshot. The 21-cm signal is that of the fields so obtained at the requested redshift, optionally with its mean (of each slice along the third axis for C2Ray) subtracted.',
     'all snapshot values, all sets and orders of snapshot redshifts, all redshifts within their range or equal to one of them',
     'No test reads snapshots; the file picked depends on the order of the directory listing and on the redshift.',
     ['usefuls.py', 'read_files.py'],
     [('coeval fields', 'usefuls.coeval_xfrac, coeval_dens, coeval_overdens, coeval_vel, coeval_21cm'), ('C2Ray', 'read_files.coeval_xfrac_c2ray, coeval_dens_c2ray, coeval_21cm_c2ray')])

prop('C21', 'UV coverage counts every baseline sample in the cell of its Earth-rotated (u, v)',
     'Every pair of antennas gives one baseline, its separation in wavelengths of the redshifted line or of the given frequency. The Earth rotates baselines by 15 degrees per hour about the pole, centred on the meridian. In a uv map each sample counts in the cell nearest to (u, v) times the field of view, in FFT order with zero frequency first, samples outside the grid are dropped, mirrored baselines are averaged with the original ones, and the map is the mean over the integrations. A maximum baseline empties exactly the cells beyond it. Local, geocentric, interferometric and geographic antenna coordinates convert rigidly into one another, with or without units.',
     'all antenna positions and pointings, even and odd grids, with and without mirrored baselines, within the bounds',
     'No test computes a uv map.',
     ['radio_telescope_layout.py', 'radio_telescope_noise.py'],
     [('baselines', 'radio_telescope_layout.from_antenna_config, antenna_positions_to_baselines'), ('rotation', 'radio_telescope_layout.earth_rotation_effect'),
      ('gridding', 'radio_telescope_layout.grid_uv_tracks, get_uv_daily_observation; radio_telescope_noise.get_uv_map, make_uv_map_lightcone'), ('coordinates', 'radio_telescope_layout.enu_to_ecef, ecef_to_xyz, geographic_to_cartesian_coordinate_system, cartesian_to_geographic_coordinate_system')])

prop('C22', 'UV maps of a light cone survive interruptions and are never mixed up',
     'A light cone of uv maps holds, under the redshift with three decimals, the map made for that redshift with the parameters of the call, together with these parameters, for any number of workers and any checkpoint interval. Maps already in the cache file are returned as they are. If a run is interrupted, the file keeps all maps it had and all maps of the checkpoints completed so far, and repeating the call returns and stores the complete set. A cache file made with another number of cells, box size, integration time, declination or antenna layout is refused with ValueError and left as it is; one made with the same parameters is accepted.',
     'every interruption point, every subset of cached redshifts, all worker numbers and checkpoint intervals, all map values and parameters',
     'No test runs the cache; what survives depends on where the run stops and what the file held before.',
     ['radio_telescope_noise.py', 'read_files.py'],
     [('cache and checkpoints', 'radio_telescope_noise.get_uv_map_lightcone'), ('file', 'read_files.read_dictionary_data, write_dictionary_data'), ('cube of maps', 'radio_telescope_noise.make_uv_map_lightcone')],
     over=('inputs', 'crash points', 'histories', 'configurations'))

prop('C23', 'Thermal noise follows the radiometer equation and the uv coverage',
     'The SEFD is 2 k T_sys / A_eff for numbers, functions and arrays of frequencies, or the log-linear interpolation of a table, which it reproduces at its nodes. The noise of a visibility falls with the root of bandwidth and integration time, that of the image with the root of the number of baselines and of observations. A noise map is the inverse transform of the visibility noise divided by the root of the coverage (natural weighting), zero where the plane is not sampled, tapered around zero frequency. Every slice of a noise cube or light cone is a new draw with the coverage, channel width and frequency of that slice, in mK. Kelvin and jansky convert into each other with the solid angle of a pixel. The image of an incomplete coverage keeps the sampled modes and removes all others. The error of the power spectrum is that of equation 11 of Mellema et al. (2013) for any array. Inputs are not modified.',
     'all draws, images and coverages on the bounded grids, all frequencies, bandwidths, times, system temperatures and box sizes in range',
     'No test generates noise; the laws relate all frequencies, coverages and draws.',
     ['radio_telescope_noise.py', 'radio_telescope_sensitivity.py', 'power_spectrum_noise.py'],
     [('error', 'power_spectrum_noise.noise_error_ps'), ('SEFD and rms', 'radio_telescope_sensitivity.get_SEFD, sigma_noise_radio'), ('units', 'radio_telescope_sensitivity.kelvin_2_jansky, jansky_2_kelvin'),
      ('noise', 'radio_telescope_noise.noise_map, noise_cube_coeval, noise_cube_lightcone, noise_lightcone, apply_uv_response_noise'), ('response', 'radio_telescope_noise.apply_uv_response_on_image, apply_uv_response_on_coeval')])

prop('C24', 'Gain and antenna-stamp uv maps record each baseline sample once, in its cell',
     'Every sample of an observation (one per pair of antennas and integration, with the Earth rotation of its hour angle) is recorded exactly once, or twice when mirrored baselines are included, in the cell nearest to its (u, v), unless it lies outside the grid. An antenna stamp map lists the tags of the pairs per integration and cell, its counts give the uv map, and its Lagrangian form holds the cell of each pair or NaN, for any number of workers. A gain map holds the number of hits and the sums of the four products of the gains of the two antennas; gains are drawn again exactly when their time scale has passed. An image observed with real gains keeps its sampled modes scaled by the root of the mean product and loses the others.',
     'all antenna positions and gains within the bounds, every number of workers, every time scale of the gains',
     'No test calls the calibration module; lost and double samples show only for particular tracks and worker numbers.',
     ['radio_telescope_calibration.py', 'radio_telescope_layout.py'],
     [('stamps', 'radio_telescope_calibration.get_full_uv_map_with_antenna_stamp, get_full_uv_lagrangian_with_antenna_stamp, full_uv_map_with_antenna_stamp_to_uv_map'), ('gains', 'radio_telescope_calibration.get_uv_map_with_gains, from_antenna_config_with_gains, gain_uv_map_to_uv_map'), ('image', 'radio_telescope_calibration.apply_uv_with_gains_response_on_image')])

prop('C28', 'Lyman-alpha optical depths follow density, neutral fraction, path and window',
     'The fluctuating Gunn-Peterson optical depth of a cell is proportional to its neutral hydrogen density, to the oscillator strength, the wavelength and (1+z)^3 / H(z), whether the density is given as a contrast or as a density. The line cross section is the Voigt profile with the thermal Doppler width and the damping that belongs to it, and the line optical depth is the column times the cross section, in any unit. The effective optical depth of a cell is minus the logarithm of the mean transmission in the periodic window of the given length around it, stays on the grid of the input whatever the axis of the line of sight, and is the same for lengths in cells or in any unit of length. Inputs are not modified.',
     'all fields, temperatures, frequencies and path lengths on the bounded grids, every axis, every window that fits the box',
     'No test calls the module; the window, axis and unit laws hold for all fields.',
     ['lyman_alpha_transmission.py'],
     [('optical depths', 'lyman_alpha_transmission.tau_nu_lyA_FGPA, tau_nu_lyA'), ('cross section', 'lyman_alpha_transmission.lyA_scattering_cross_section'), ('effective optical depth', 'lyman_alpha_transmission.tau_nu_lyA_los')])

prop('C15', 'Regions of interest are the cells on the right side of the threshold',
     'A fixed threshold marks the cells at or below it, or at or above it. The triangle method applies the threshold of the whole cube, or the median of the thresholds of the slices along the given axis. Clustering marks exactly the cells of the cluster with the lowest values, or of that with the highest, however the clusters are numbered: two clusters of two values are told apart, and a cube with a single value is one region. Bubbles from superpixels are the superpixels with a mean below the threshold found from the means.',
     'all fields, thresholds, splits into clusters and numberings of the clusters on the bounded grids, every axis',
     'No test identifies regions; the numbering of clusters is arbitrary.',
     ['identify_regions.py', 'superpixels.py'],
     [('thresholds', 'identify_regions.bubbles_from_fixed_threshold, bubbles_from_triangle3D, bubbles_from_triangle2D'), ('clusters', 'identify_regions.bubbles_from_kmeans, threshold_kmeans, threshold_kmeans_3cluster'), ('superpixels', 'identify_regions.bubbles_from_slic; superpixels.stitch_superpixels')])

prop('C27', 'Test-time augmentation maps every prediction back to its cell',
     'For any slice predictor, the segmentation of a cube is the rounded mean of the predictions of every slice along every axis of every different combination of flips and rotations of the cube, each mapped back to the cells it belongs to, and the error is the standard deviation of those predictions. A predictor that acts on every cell alike gives the same segmentation with and without augmentation and no error. The input cube is not modified.',
     'all cubes of the bounded sizes, all pointwise predictors and a position dependent one',
     'No test can load the network; a prediction mapped back to the wrong cell shows only for predictors and cubes without symmetry.',
     ['segmentation.py'],
     [('augmentation', 'segmentation.segunet21cm.prediction, IndependentOperations, UniqueRows')])

prop('C26', 'Superpixel statistics belong to the cells that carry the label',
     'For every labelling, the means, deviations, cell numbers and cell lists of superpixels are those of the cells with each label, in ascending order of the labels, which need not be consecutive or start at zero. The superpixel map gives every cell the value of its label. Stitching marks the superpixels with a mean below the given threshold (zero included), the mean of the data or the threshold of the means. Signal-to-noise ratios come in ascending order of the means with every column reordered alike, the combined mean and deviation of groups are those of their union, and the estimate of the mean combines the superpixels beyond the ratio limit, or is zero.',
     'all labellings and data of the bounded grids, all thresholds',
     'No test calls the module; the faults show for labels with gaps or a threshold of zero.',
     ['superpixels.py'],
     [('statistics', 'superpixels.apply_operator_labelled_data, get_superpixel_means, get_superpixel_sigmas, get_superpixel_n_pixels, get_superpixel_pixels, get_superpixel_SNRs'), ('maps', 'superpixels.superpixel_map, binary_stitch, see_label'), ('estimates', 'superpixels.get_combined_mean_std, mean_estimate, under_segmentation_error, xfrac_mass_estimate')])

prop('C25', 'The primary beam attenuates each slice by the beam of its own redshift',
     'The beam of a station is one at the centre, symmetric, follows the profile of its kind (step, Gaussian, sigmoid or Airy) for the given distance to the null, and falls away from the centre. A light cone is multiplied slice by slice with the beam of the redshift of the slice, whatever the axis of frequency and whether redshifts come as list or array; an image with that of its redshift or with the given null. The null of a station is 1.22 wavelengths over the diameter times the comoving distance. Diameters may carry units; inputs are not modified; unknown beams are refused.',
     'all fields and all distances to the null in range, every kind of beam, every axis',
     'No test applies a primary beam.',
     ['primary_beam.py'],
     [('application', 'primary_beam.primary_beam'), ('profile', 'primary_beam.circular_beam'), ('null', 'primary_beam.primary_beam_null')])

prop('C29', 'Gaussian random fields have the requested power spectrum at every mode',
     'A Gaussian random field is real and linear in independent standard normal draws. Its expected power at every wave vector of the grid, odd or even and for any lengths of the box, is the requested spectrum at the length of that wave vector (no power at zero), and different modes are uncorrelated. A field like another one has the power spectrum of that field, interpolated between its bins.',
     'all draws (the ensemble mean is exact, from the responses to all single draws) and all spectra on the bounded grids and boxes',
     'No test makes a random field; a sample cannot show the ensemble mean at each mode.',
     ['gaussian_random_field.py'],
     [('field', 'gaussian_random_field.make_gaussian_random_field'), ('like a field', 'gaussian_random_field.make_gaussian_random_field_like_field, _get_ps_func_for_field')],
     over=('inputs', 'configurations'))

prop('C30', 'The integrated bispectrum correlates local power spectra with local means',
     'The integrated bispectrum is the mean, over sub-boxes that cover the box without overlap, of the power spectrum of the field within the sub-box times the mean of the (other) field there; the normalised one divides by the mean local power spectrum and by the variance of the local means. The power spectrum response is normalised alike. Cubes of different shape or that cannot be cut are refused, and inputs are not modified.',
     'all pairs of fields on the bounded grids, all binnings and numbers of sub-boxes listed',
     'No test computes it; which cells belong to which sub-box does not show in one number.',
     ['position_dependent_power_spectrum.py', 'power_spectrum.py'],
     [('integrated bispectrum', 'position_dependent_power_spectrum.integrated_bispectrum, integrated_bispectrum_cross'), ('response', 'position_dependent_power_spectrum.power_spectrum_response')])

prop('C31', 'Correlation functions transform the power spectrum and count pairs by distance',
     'The correlation function of a spectrum is 4 pi times the integral of k^2 P(k) sin(kr)/(kr) by the trapezoidal rule over its non-empty bins. That of a field, or of two fields, transforms their spectrum, so that it is symmetric, equals the autocorrelation for equal fields and scales with their product. The Landy-Szalay estimate in each bin of separation is 1 + (DD - 2 DR)/RR with the numbers of pairs normalised by those possible, for catalogues of positions or masks, given edges or automatic bins over the given range. Inputs are not modified.',
     'all spectra, fields and point catalogues within the bounds',
     'No test computes a correlation function; the faults depend on separations and the number of lengths of the box.',
     ['corr_function.py', 'power_spectrum.py'],
     [('transform', 'corr_function.ps_to_corr'), ('fields', 'corr_function.correlation_function, cross_correlation_function'), ('pairs', 'corr_function.landy_szalay_estimator')])

prop('C34', 'Bubble models unite periodic balls painted where they are drawn',
     'Painting a kernel adds it, centred and wrapped periodically, once at every given position and leaves all other cells as they are. A bubble model is the given (or an empty) cube united with periodic balls of the given radius around drawn cells: any neutral cell can be drawn, for the non-overlapping kinds any cell farther than the radius from every bubble, also across the boundary. The cube stays binary, painting stops with the first bubble that reaches the filling fraction or when there is no room or no try left, and the given cube is not modified.',
     'all cubes and kernels on the bounded grids, all first draws, filling fractions and given cubes listed',
     'No test paints a bubble; whether balls overlap or wrap depends on the draw.',
     ['test_case.py'],
     [('painting', 'test_case.paint_kernel'), ('models', 'test_case.spherical_bubble_model')])

prop('C33', 'Foreground maps and wedge filters act on the right modes and pixels',
     'The galactic foreground of every slice is the modulus of the transform of the same normal draws, scaled by the angular power at the frequency of the slice, and is finite for any grid, odd or even. In the extragalactic foreground the flux of a pixel is that of all sources in it, each with its own spectral index. The diabolo and barrel filters have one value per Fourier mode in shifted order: 0 below the wedge limit or the smallest transverse wave number, 1 (or the sigmoid) elsewhere. Wedge removal keeps the modes outside the filter and removes those inside, for cubes of any parity or a given filter. The rolling removal gives each channel the middle of its own Blackman-tapered zero-padded chunk without the modes below the horizon of the highest redshift in the chunk plus the buffer. Inputs are not modified.',
     'all draws of the foregrounds and all cubes on the bounded grids, all limits of the wedge listed',
     'No test makes a foreground or removes a wedge; a mode put in the wrong place only shows for odd cubes or single modes.',
     ['foreground_model.py'],
     [('foregrounds', 'foreground_model.galactic_synch_fg, extragalactic_pointsource_fg'), ('filters', 'foreground_model.diabolo_filter, barrel_filter'), ('removal', 'foreground_model.remove_wedge_image, rolling_wedge_removal_lightcone')])

prop('C32', 'The bispectrum averages the closed triangles with sides in the given shells',
     'The bispectrum of three shells of wave numbers is V^2/N^3 times the mean of the product of the three modes over all triangles of wave vectors that close on the grid and have one side in each shell, for even and odd grids, any lengths of the box and equal or different shells. That of two sides and angles takes the third side from the cosine law, the equilateral one belongs to the wave numbers it is returned with, both for any number of workers. Inputs are not modified.',
     'all fields on the bounded grids, all shells and boxes listed, every number of workers',
     'No test computes a bispectrum; before the repairs none could be computed.',
     ['bispectrum.py'],
     [('triangles', 'bispectrum.Bispectrum.bispectrum_fast'), ('configurations', 'bispectrum.bispectrum_k1k2, bispectrum_equilateral'), ('transform', 'bispectrum.fft_nd')])
