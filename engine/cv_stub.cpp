// Stand-ins for the few OpenCV functions basicimg refers to: there is no OpenCV library here, only its headers.
// No check reaches them (the checks hand gradients and images over as matrices), and they abort if one does.
#include <stdlib.h>
#include <stdio.h>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <opencv2/imgcodecs.hpp>
#define NOT_HERE { fprintf(stderr, "an OpenCV function was called\n"); abort(); }
namespace cv {
	char* String::allocate(size_t) NOT_HERE
	void String::deallocate() {}
	Mat::Mat(int, const int*, int, void*, const size_t*) : size(&rows) NOT_HERE
	void Mat::create(int, const int*, int) NOT_HERE
	void Mat::deallocate() {}
	Mat& Mat::operator = (const Scalar&) NOT_HERE
	void Sobel(InputArray, OutputArray, int, int, int, int, double, double, int) NOT_HERE
	void cvtColor(InputArray, OutputArray, int, int) NOT_HERE
	void fastFree(void*) {}
	Mat imread(const String&, int) NOT_HERE
	bool imwrite(const String&, InputArray, const std::vector<int>&) NOT_HERE
	void resize(InputArray, OutputArray, Size, double, double, int) NOT_HERE
}
