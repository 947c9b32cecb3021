// Force-included: gives every fibre its own thread identity.
#pragma once
#define pthread_self vf_pthread_self
