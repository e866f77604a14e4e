CLAIMED = {
 'C01': 'Unbounded: any buffer state, any text of any length up to 2^34.',
 'C19': 'Unbounded over the reals: any segment, any point.',
 'C24': 'Unbounded: any enumerator values, any parameter values.',
 'C26': 'Unbounded over the reals / machine integers.',
}
CLAIMED.update({'C21':'BOUNDED: Tokens of bounded length, all characters.','C22':'BOUNDED: Command lines of bounded length.','C23':'BOUNDED: Flags and names of bounded length, all characters.'})
CLAIMED.update({'C25':'Unbounded: any argument and result values.','C27':'All supported types; constants are evaluated by the compiler and compared.'})
CLAIMED.update({'C02':'Unbounded lengths of blocks and texts; the std::string view and single character growth also bounded.','C03':'BOUNDED: Given lengths, every cursor position and all element values.',
 'C04':'BOUNDED: Given capacities, every cursor position and all element values.','C05':'Unbounded sizes and indices; copies and initialisers of bounded size.','C06':'Unbounded sizes; copies and initialisers of bounded size.'})
CLAIMED.update({
 'C07': 'Unbounded: every value of every integral type, arrays of every length; the hexadecimal text forms with texts of bounded length.',
 'C08': 'Unbounded: every int value to its decimal text; text to int with texts of bounded length.',
 'C09': 'BOUNDED: every value; widths up to a stated bound.',
 'C10': 'Unbounded: every pair of time stamps whose sum or difference fits the machine type.',
 'C11': 'Unbounded: every duration and every clock reading; the clock and the sleep of the system are recording stand-ins.',
 'C12': 'Unbounded number of samples (induction over the samples from an arbitrary valid state), over the reals.',
})
CLAIMED.update({
 'C13': 'Unbounded over the reals: every angle, every pair of operands; the turn is the machine constant.',
 'C14': 'Every coefficient, argument and shift over the reals, for the degrees 0 to 7.',
 'C15': 'Every coefficient and interval over the reals; three different real roots of a cubic only where they are evenly spaced (the trigonometric branch is not covered).',
 'C16': 'Every end point and boundary value over the reals.',
})
CLAIMED.update({'C17': 'BOUNDED: Exact over the reals for every data set of the stated number of points.'})
CLAIMED.update({'C18': 'Every position and heading over the reals, sines and cosines exact, the turn of the machine counted as a whole turn.', 'C20': 'Every radius, axle, rate, velocity and pose over the reals, sines and cosines exact.'})
CLAIMED.update({'C34': 'Every symmetric positive definite 2x2 matrix over the reals, given by its axes; the intercepts bounded to one shape of any size in four directions; the three dimensional ellipsoid (iterative solver of Eigen) is not covered.'})
CLAIMED.update({'C31': 'Every system error number for the handlers of file and socket calls; rethrow chains of three levels, texts of bounded length.'})
NOT_APPLICABLE = {
 'C28': 'Not decided: every parse function reads through a device and builds its result with std::string and stream state inside one large class template; contracts for it were not brought within the reach of the verifier (several suspected defects are listed in DESIGN.md as unproved).',
 'C29': 'Not decided: the functions are loops around write(2)/fprintf of the system and the shared file registry (std::map, mutex); what reaches the device is behaviour of the kernel, for which only assumed contracts could be written.',
 'C30': 'The registry of topics is built on std::map and std::set, whose tree balancing lives in libstdc++.so and has no body the verifier can read; its property is also about concurrent connects and emits, which sequential contracts cannot express.',
 'C32': 'The observable behaviour is that of kernel semaphores and shared memory between processes; the deductive verifier sees only external calls whose contracts would have to be assumed, so the property would be assumed and not proved.',
 'C33': 'The property quantifies over schedules of several threads. The contracts here are sequential (one function at a time, no interference), and mutual exclusion is provided by pthread, which would have to be assumed.',
 'C35': 'Trajectory generation runs on dynamically sized containers of splines with data dependent retry loops (stretching durations until the limits hold) without a termination argument; no contract within reach of the verifier decides it.',
}
