# Repaired defects -> known_findings.json (status "fixed" suppresses nothing).
F = [
 ("C05","92f6dfd","find_local_extrema: several OpenMP threads appended to one vector, corrupting the list of keypoints"),
 ("C05","8aa0a24","get_potential_keypoint: read octaves and scales that had not been generated"),
 ("C05","9111b24","get_potential_keypoint: keypoints came back in thread completion order"),
 ("C05","3434556","feature matching: matches came back in thread completion order"),
 ("C02","0b92bd0","windowed_filter: wrote filtered pixels into the image other windows were still reading"),
 ("C07","6bed445","workspace rename of a variable to its own name destroyed it"),
 ("C08","1142e81","a store that failed for lack of memory left an empty variable behind"),
 ("C15","91d2d50","Timer used the wall clock: elapsed time jumped with clock steps"),
 ("C10","2b0ec24","binary writers returned success although fwrite/fclose had failed"),
 ("C10","3cd1aa6","binary writers dereferenced a null row buffer when memory ran out"),
 ("C12","c4009c9","row padding of double/HSV files came from uninitialised memory"),
 ("C10","5f32dbd","CSV, PNM and LaTeX writers did not notice failed writes"),
 ("C10","73d227c","pnm::write truncated the target before rejecting the format"),
 ("C11","d590f94","BMP reader made up pixels for truncated, unreadable or invalid files"),
 ("C11","b80653d","reading a top-down BMP ran a shell and waited for a key press"),
 ("C11","299bb67","double and HSV readers made up pixels for missing, truncated or invalid files"),
 ("C11","59e3ce4","CSV reader terminated on malformed cells and made up pixels for short rows and failed reads"),
 ("C11","6775e82","PNM reader read out of bounds when the header's dimensions overflow"),
 ("C10","8178540","the command line's image saver ignored failed writes"),
 ("C13","e9ebb65","save_workspace reported success for variables it could not write"),
 ("C13","43055f3","one damaged file kept load_workspace from loading the rest of the bundle"),
 ("C10","ff5179e","binary writers leaked the raw image when writing threw"),
 ("C10","a77fd02","write_to_csv reported success for rows it had not been able to format"),
 ("C13","0107aca","save_workspace walked the variable map without the lock: crash or a mixed state while other clients changed it"),
 ("C18","b962fa1","Image::getSize copied a vector in a noexcept function: the program was terminated when memory ran out"),
 ("C18","e542485","cosine transforms copied whole planes inside the OpenMP loop: the program was terminated when memory ran out"),
 ("C18","04559f4","an exception while generating an octave left the OpenMP region and terminated the program"),
 ("C18","af46907","assigning an image left size and pixels inconsistent when memory ran out"),
 ("C09","64e8346","a failing element terminated the process under a parallel policy and leaked temporaries"),
 ("C14","6c5a39a","a pipeline whose stage failed went on with the data an earlier pipeline had left behind"),
 ("C14","dc9b5c6","zeros, ones, grid and gaussian_figure_2d could not start a pipeline"),
 ("C14","6f9165a","the pipeline optimizer turned commands on files into copies that fail"),
 ("C14","d4c976b","grid with cell size zero killed the interpreter (division by zero)"),
 ("C14","ce4fffa","the count command failed for every image (bad any_cast)"),
 ("C14","90c4565","multiply under a parallel policy terminated the program for element types without scalar multiplication"),
 ("C14","4e652e4","one image that cannot be saved kept save_workspace from saving the rest"),
 ("C14","18622dc","an execution policy in front of a stage's arguments made the pipeline read and overwrite the wrong variables"),
 ("C11","7ad575e","a read error in the row padding of an 8-bit BMP shifted the following rows"),
 ("C09","bc4cfec","two transform_container commands on one workspace used the same temporary variables: crash or mixed results"),
 ("C14","c072535","the optimizer took the last argument of multiply for its factor: multiply $a $b 2 1 copied instead of doubling"),
 ("C19","ddec6a6","a plug-in that failed while registering was unloaded although its commands stayed registered: the next call ran unmapped code"),
 ("C19","d8d0aaa","an unreadable plug-in directory terminated the program at start"),
 ("C19","1e0fdc6","variables created by a plug-in were destroyed after the plug-in was unloaded: crash at exit"),
 ("C18","fdce8a9","an exception while warping an image left the OpenMP region and terminated the program"),
 ("C18","46fd807","an exception while searching for keypoints left the OpenMP region and terminated the program"),
]
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = []   # known, unrepaired findings: dict(property, status="known", scenario, match, what)
json.dump([dict(property=p, status="fixed", commit=c, what=w, line="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in F] + K, open(V + "/known_findings.json", "w"), indent=1)
