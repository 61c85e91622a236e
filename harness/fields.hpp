// The documented settings keys, their defaults and where their values end up.
#pragma once
#include <functional>
typedef CommonSettings C;
enum Kind { KD, KB, KU, KL, KE };
struct Field { const char* key; Kind k; double def; std::function<double(const C&)> get; std::vector<std::pair<std::string, double>> en; };
#define FD(key, m, d) {key, KD, d, [](const C& c) { return (double)c.m; }, {}}
#define FB(key, m, d) {key, KB, d, [](const C& c) { return (double)c.m; }, {}}
#define FU(key, m, d) {key, KU, d, [](const C& c) { return (double)c.m; }, {}}
#define FL(key, m, d) {key, KL, d, [](const C& c) { return (double)c.m; }, {}}
static const std::vector<Field>& fields()
{
  static const double INF = std::numeric_limits<double>::infinity();
  static const std::vector<Field> f = {
    {"Use_algorithm", KE, (double)C::UseAlgorithm::PF_PDR, [](const C& c) { return (double)c.useAlgorithm; }, {{"PF_PDR", (double)C::UseAlgorithm::PF_PDR}, {"PF_NOPDR", (double)C::UseAlgorithm::PF_NOPDR}, {"ZONES", (double)C::UseAlgorithm::ZONES}, {"GRAPH", (double)C::UseAlgorithm::GRAPH}, {"KNN", (double)C::UseAlgorithm::KNN}}},
    {"Measurement_type", KE, (double)C::MeasurementType::RSSI, [](const C& c) { return (double)c.measurementType; }, {{"rssi", (double)C::MeasurementType::RSSI}, {"distance_v1", (double)C::MeasurementType::DISTANCE_V1}, {"distance_v2", (double)C::MeasurementType::DISTANCE_V2}}},
    {"Use_Signals", KE, (double)C::SignalsToUse::BLE, [](const C& c) { return (double)c.signalsToUse; }, {{"ble", (double)C::SignalsToUse::BLE}, {"wifi", (double)C::SignalsToUse::WIFI}, {"both", (double)C::SignalsToUse::BOTH}}},
    FD("Correction_noise", lklCorrectionNoise, 10), FB("Use_enu_azimuth", useEnuAzimuth, 0), FB("Differention_mode", useDifferentionMode, 0), FB("Use_beacon_power", useTxPower, 0),
    FB("Use_radiomap", useRadiomap, 0), FB("Use_stops", useStops, 0), FB("Use_tracking", useTracking, 0), FD("Stop_detection_time", stopDetectionTime, 3), FD("Min_deviation_m", minDeviationM, 1), FD("Average_speed", averageMovSpeed, 1),
    FB("Use_best_ref_point_level", useBestRefPointLevel, 0), FB("Use_barometer", useBarometer, 0), FB("Use_unknown_beacons", useUnknownTransmitters, 0), FD("Cutoff_rss", sigCutOffRss, -100), FB("Use_closest_aps", useClosestAps, 0), FU("N_closest_aps", numClosestAps, 1),
    FD("Sig_averaging_time", sigAveragingTime, 1), FD("Sig_window_shift", sigWindowShift, 0), FU("N_particles", numParticles, 1000), FU("Min_msr_num_for_mutation", minMsrNumForMutation, 3), FD("Resampling_threshold_num", resamplingThreshold, 600),
    FU("Min_num_of_particles", minNumParticlesAlive, 100), FD("Gyro_noise_degree", gyroNoiseDegree, 4), FD("Step_noise_deviation_meters", stepNoiseDeviationMeters, 0.4), FB("Use_projection_to_white_area", useProjectionToWhiteArea, 0),
    FU("N_particles_around_closest_AP", numParticlesAroundClosestAp, 10), FU("N_particles_to_mutate", numParticlesToMutate, 50), FU("Num_sampling_attempts", numSamplingAttempts, 60), FU("Num_initialization_attempts", numInitializationAttempts, 500), FB("Use_uniform_sampling", useUniformSampling, 0),
    FU("K_neighbors", kNeighbors, 8), FB("Use_triangles", useTriangles, 1), FB("Use_diff_mode", useDiffMode, 1), FU("Min_num_of_measurements_for_position_calculation", minNumOfMeasurementsForPositionCalculation, 4),
    FD("Smoothing", smoothing, 0.5), FD("Dead_reckon_time", deadReckoningTime, 5), FD("Stop_update_time", stopUpdateTime, 4), FD("Graph_prog_distance", graphProjDist, 5), FD("Stopped_distance_threshold_m", useStopsDistanceThresholdM, 10),
    FB("Use_smoothing", useSmoothing, 1), FB("Use_graph_projection", useGraphProjection, 0), FB("Use_accuracy_for_smoothing", useAccuracyForSmoothing, 0), FB("Use_speed_constraint", useSpeedConstraint, 1), FB("Use_barriers", useBarriers, 0), FB("Use_time_smoothing", useTimeSmoothing, 0), FB("Use_ab_filter", useAbFilter, 1),
    FB("Use_altitude", useAltitude, 0), FB("Use_gps", useGps, 0), FB("Use_instant_gps_position", useInstantGpsPosition, 0), FB("Prefer_indoor_solution", preferIndoorSolution, 0), FB("Fuse_gps", fuseGps, 0), FB("Use_gps_outside_map", useGpsOutsideMap, 0), FB("Use_gps_sigma_filter", useGpsSigmaFilter, 0),
    FU("Sigma_filter_window", sigmaFilterWindow, 1), FD("Sigma_filter_delta", sigmaFilterDelta, 0), FU("Min_num_sats", minNumSats, 20), FD("Prior_deviation", priorDeviation, 50), FD("Gps_deviation", minGpsDeviation, 5), FD("Maximum_to_accept_gps_measurement", maxGpsDeviation, INF),
    FD("Fuse_gps_border", fuseGpsBorderM, 10), FL("No_signal_time_threshold", noSignalTimeThreshold, 35), FL("No_action_time_threshold", noActionTimeThreshold, 20), FD("Position_old_for_fusing_sec", positionIsTooOldSec, 20), FD("Gps_valid_time_window_sec", gpsValidTimeWindowSec, 1),
    FB("Use_calculated_azimuth", useCalculatedAzimuth, 0), FD("Device_azimuth_lifetime_seconds", deviceAzimuthLifetimeSeconds, 10), FD("Step_multiplier", stepMultiplier, 1), FB("Has_accelerometer", hasAccelerometer, 1), FB("Has_gyroscope", hasGyroscope, 1), FD("WiFi_RTT_Offset", wiFiRttOffset, -1.5)};
  return f;
}
